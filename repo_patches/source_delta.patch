From 314a3c0141049729bf93adb735ce42401d9598e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 01/74] verification hook: recursion cutoff of the DC
 triangulator (PARDETRIA_VERIF)

---
 include/DCTriangulator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/DCTriangulator.h b/include/DCTriangulator.h
index f5d6cf2..f0aad35 100644
--- a/include/DCTriangulator.h
+++ b/include/DCTriangulator.h
@@ -79,5 +79,10 @@ protected:
 
 public:
     static constexpr Precision SAFETY = 100;
+#ifdef PARDETRIA_VERIF
+    // verification builds recurse on small inputs, too
+    static constexpr uint BASE_CUTOFF = PARDETRIA_VERIF;
+#else
     static constexpr uint BASE_CUTOFF = 500;
+#endif
 };
-- 
2.43.0


From 915bc43c7723812bbfc68d6d5ac197d411923574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:25 +0000
Subject: [PATCH 02/74] fix: Concurrent_LP_Map::get returned an uninitialised
 value while an insertion was under way

---
 include/datastructures/LP_Map.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..75cfd11 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -432,7 +432,7 @@ private:
 
     inline void _allocate(const std::size_t size) {
         m_keys.reset(new std::atomic<K>[size]()); // zero init
-        m_values.reset(new std::atomic<V>[size]); // random init
+        m_values.reset(new std::atomic<V>[size]()); // zero init, a key is visible before its value
     }
 
 public:
-- 
2.43.0


From b614d31bb26d9d64fba38f5cbc7d71c920eba76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 03/74] fix: multimap lookup returned nothing when the chain of
 the key spans all but one slot

---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..cbc3d35 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From 95ff89c582cbd7350ecb5f7f4f326fbe302f2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 04/74] fix: growing hash tables lost elements inserted during
 a migration and raced on the table pointer

---
 include/datastructures/Growing_LP.hxx | 74 +++++++++++++++++----------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..4920b6b 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -23,7 +23,7 @@ public:
 
     template<typename... Args>
     GrowingHashTable(Args... args)
-            : g_epoch_r(0), g_epoch_w(0), helperThreads(0) {
+            : g_epoch_r(0), g_epoch_w(0), activeWriters(0), helperThreads(0) {
         g_table_r = std::make_shared<HT>(std::forward<Args>(args)...);
         g_table_w = g_table_r;
     }
@@ -35,6 +35,7 @@ public:
               g_table_r(other.g_table_r),
               g_epoch_w(other.g_epoch_w.load()),
               g_table_w(other.g_table_w),
+              activeWriters(0),
               helperThreads(0) { }
 
     ~GrowingHashTable() = default;
@@ -44,6 +45,7 @@ public:
         g_table_r = other.g_table_r;
         g_epoch_w.store(other.g_epoch_w.load());
         g_table_w = other.g_table_w;
+        activeWriters.store(0);
         helperThreads.store(0);
 
         return *this;
@@ -71,8 +73,18 @@ private:
         return g_table_r->size();
     }
 
+    // threads inside an insertion: elements are only migrated when there are none
+    std::atomic_uint activeWriters;
     std::atomic_uint helperThreads;
-    std::mutex grow_mutex;
+    mutable std::mutex grow_mutex;
+
+    struct Writer {
+        std::atomic_uint &count;
+
+        Writer(std::atomic_uint &count_) : count(count_) { count.fetch_add(1); }
+
+        ~Writer() { count.fetch_sub(1); }
+    };
 
 };
 
@@ -180,12 +192,9 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
+        std::lock_guard<std::mutex> lock(parent.grow_mutex);
         l_table = parent.g_table_r;
-
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+        l_epoch = l_table->m_version;
     }
 
 private:
@@ -215,19 +224,27 @@ public:
 
     template<typename... Args>
     InsertReturn insert(Args... args) {
-        uint t_epoch = parent.g_epoch_w.load();
-        if (t_epoch > l_epoch) {
-            getTable();
-            if (t_epoch > l_epoch) {
-                grow();
+        while (true) {
+            bool stale;
+            InsertReturn result;
+            {
+                // announce the insertion first: either grow() waits for it or it sees the new epoch
+                typename GrowingHashTable<HT>::Writer writer(parent.activeWriters);
+                stale = parent.g_epoch_w.load() > l_epoch;
+                if (!stale)
+                    result = l_table->insert(args...);
             }
+
+            if (stale) {
+                getTable();
+                if (parent.g_epoch_w.load() > l_epoch) {
+                    grow();
+                }
+            } else if (result == InsertReturn::State::Full) {
+                grow();
+            } else
+                return result;
         }
-        auto result = l_table->insert(args...);
-        if (result == InsertReturn::State::Full) {
-            grow();
-            return insert(args...);
-        } else
-            return result;
     }
 
     template<typename... Args>
@@ -337,12 +354,9 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
+        std::lock_guard<std::mutex> lock(parent.grow_mutex);
         l_table = parent.g_table_r;
-
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+        l_epoch = l_table->m_version;
     }
 
     void grow() {
@@ -354,6 +368,12 @@ private:
         HashPtr w_table;
         { //should be atomic
             std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            if (parent.g_table_r->m_version != l_table->m_version) {
+                // our table has been replaced already
+                l_table = parent.g_table_r;
+                l_epoch = l_table->m_version;
+                return;
+            }
             if (parent.g_table_w->m_version == l_table->m_version) {
                 auto temp = std::make_shared<HT>(l_table->capacity() << 1,
                                                  l_table->m_version + 1);
@@ -366,6 +386,10 @@ private:
         auto t_epoch = l_table->m_version;
         parent.g_epoch_w.compare_exchange_strong(t_epoch, w_table->m_version);
 
+        //wait for insertions into the old table, later ones see the new epoch
+        while (parent.activeWriters.load())
+        {};
+
         //nhelper ++
         parent.helperThreads.fetch_add(1);
 
@@ -393,12 +417,10 @@ private:
             std::lock_guard<std::mutex> lock(parent.grow_mutex);
             if (parent.g_table_r->m_version < w_table->m_version) {
                 parent.g_table_r = w_table;
+                parent.g_epoch_r.store(w_table->m_version);
             }
         }
 
-        //CAS epoch_r up
-        t_epoch = l_table->m_version;
-        parent.g_epoch_r.compare_exchange_strong(t_epoch, w_table->m_version);
         getTable();
     }
 
-- 
2.43.0


From 32936a051f2797e5a6b24589b4a61ab95c6d86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 05/74] fix: ExperimentRun::incCounter lost increments of
 concurrent threads

---
 include/utils/Timings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 530411c..62a08e3 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -90,7 +90,7 @@ public:
     tMeasurement avgMeasurement(const std::string &name) const;
 
     void incCounter(const std::string &name, const tMeasurement &value = 1) {
-        m_counters[name] += value;
+        __atomic_fetch_add(&m_counters[name], value, __ATOMIC_RELAXED);
     }
 
     const auto &counters() const {
-- 
2.43.0


From 1ff6494f0177828951bd72f0bc0949ae55606ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 06/74] fix: is_int and is_float accepted letters and brackets
 in front of the digits and refused numerals like -0.5

---
 include/utils/StringUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..824ac0d 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -7,11 +7,11 @@
 bool is_int(const std::string & s){
     return !s.empty() &&
            ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+           || std::regex_match(s, std::regex("[-+]?[0-9]+")));
 }
 
 bool is_float(const std::string & s){
     return !s.empty() && (
            (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
+           || std::regex_match(s, std::regex("[-+]?(([0-9]+\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
 }
\ No newline at end of file
-- 
2.43.0


From fbd4aba3a267dfa6ce369ea268062ae830b276e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 07/74] fix: ProgressDisplay::operator+= read the count after
 releasing the lock

---
 include/utils/ProgressDisplay.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/ProgressDisplay.h b/include/utils/ProgressDisplay.h
index 504e9be..8520384 100644
--- a/include/utils/ProgressDisplay.h
+++ b/include/utils/ProgressDisplay.h
@@ -54,10 +54,11 @@ public:
         if ((_count += increment) >= _next_tic_count) {
             display_tic();
         }
+        const unsigned long current = _count;
 
         _mtx.clear(std::memory_order_release); // release lock
 
-        return _count;
+        return current;
     }
 
     unsigned long operator++() { return operator+=(1); }
-- 
2.43.0


From 784c027a867e22703f59169de75e76693ac90871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 08/74] fix: ExperimentRun could not be read back when a trait
 has an empty value

---
 src/utils/Timings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..be63a06 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -25,7 +25,8 @@ ExperimentRun::ExperimentRun(const std::string &run, std::string _traitSep, std:
 
     while (currPos < run.length()) {
         innerSep = run.find(_innerSep, currPos);
-        traitSep = run.find(_traitSep, currPos);
+        // an empty value may leave its separators adjacent to each other
+        traitSep = run.find(_traitSep, innerSep + _innerSep.length());
 
         //we have the last trait in the string
         traitSep = traitSep != std::string::npos ? traitSep : run.length() + 1;
-- 
2.43.0


From 8c15184b5ea5a2113069ae98c60df40b018547fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 09/74] fix: ExperimentRuns that differ only in ignored traits
 compared unequal if these differ in number

---
 src/utils/Timings.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index be63a06..6005abe 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -77,13 +77,20 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
-        return false;
+    auto isIgnored = [](const std::string &name) {
+        return std::find(c_ignored_fields.begin(), c_ignored_fields.end(), name) != c_ignored_fields.end();
+    };
+
+    // the other object must not contain relevant traits this one lacks
+    for (const auto &t : o.m_traits) {
+        if (!isIgnored(t.first) && m_traits.count(t.first) == 0)
+            return false;
+    }
 
     bool eq = true;
     for (const auto &t : m_traits) {
 
-        if (std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) != c_ignored_fields.end())
+        if (isIgnored(t.first))
             //trait is ignored field
             continue;
 
-- 
2.43.0


From 6bbaf8c1042919c05c484c5311496d4aeb8bb3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 10/74] fix: Bit_Set::filter did not count the bits outside the
 bounds of the filter

---
 include/datastructures/Bit_Set.hxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..e109d3b 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -376,10 +376,9 @@ public:
     void filter(const BitSet &filter) {
 
         m_ones = 0;
-        for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
-             i < std::min(m_upperBound, filter.m_upperBound);
-             i += cENTRIES) {
-            m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
+        for (std::size_t i = m_lowerBound; i < m_upperBound; i += cENTRIES) {
+            if (filter.m_lowerBound <= i && i < filter.m_upperBound)
+                m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
             m_ones += popcount(m_array[_block(i)]);
         }
     }
-- 
2.43.0


From 991ae6c93908af59497680af12bdd90b6e1f09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 11/74] fix: Bit_Set::batchSet cleared neighbouring bits,
 miscounted set bits and shifted by the word width

---
 include/datastructures/Bit_Set.hxx | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index e109d3b..7294975 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -218,6 +218,9 @@ public:
         ASSERT(m_lowerBound <= from && from < m_upperBound);
         ASSERT(m_lowerBound <= to && to <= m_upperBound);
 
+        if (from >= to)
+            return;
+
         /*auto print = [this] (const std::string & msg) {
             std::cout << msg << ": ";
             for(std::size_t i = 0; i < capacity(); ++i)
@@ -230,23 +233,21 @@ public:
 
         //print("before");
 
-        // special case: first block
-        m_array[fromBlock] = (~(tKeyType) 0) << (from % cENTRIES);
-
-        //print("first ");
-
-        // middle block: all ones
-        for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
-            m_array[i] = (~(tKeyType) 0);
+        for (std::size_t i = fromBlock; i <= toBlock; ++i) {
+            tKeyType mask = ~(tKeyType) 0;
 
-        //print("middle");
+            // special case: first block
+            if (i == fromBlock)
+                mask &= (~(tKeyType) 0) << (from % cENTRIES);
 
-        // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
-                           (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
-
-        m_ones = to - from;
+            // special case: last block
+            if (i == toBlock)
+                mask &= (~(tKeyType) 0) >> ((cENTRIES - (to % cENTRIES)) % cENTRIES);
 
+            // bits outside of the range keep their value
+            m_ones += popcount(mask & ~m_array[i]);
+            m_array[i] |= mask;
+        }
 
         //print("after ");
     }
-- 
2.43.0


From 6786255f9f9fd611b92312fe4067396670718b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 12/74] fix: logN for bases other than powers of two,
 nextPow2(0)

---
 include/utils/Misc.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 88d856f..04e008e 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -19,6 +19,9 @@ T isPowN(const T x, const T n) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T nextPow2(const T x) {
+    if (x == 0)
+        return 1;
+
     T v = x - 1;
 
     for (T s = 1; s < sizeof(T) * CHAR_BIT; s <<= 1) {
@@ -41,7 +44,7 @@ template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type *
 T logN(const T _x, const T _n) {
     T x = _x;
     T y = 0;
-    while (x >>= log2(_n)) ++y;
+    while (x /= _n) ++y;
     //asm ( "\tbsr %1, %0\n" : "=r"(y) : "r" (x));
     return y;
 }
-- 
2.43.0


From 098998cac2a46a051cfb4b2c8c4a20c3f980b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 13/74] fix: sequential hash tables filled up completely,
 searching for an absent key then never ended

---
 include/datastructures/LP_Map.hxx      | 2 +-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 include/datastructures/LP_Set.hxx      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 75cfd11..3d5136d 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index cbc3d35..a70572b 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..c1211b4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -305,7 +305,7 @@ public:
     bool insert(const K &key) {
         ASSERT(key != 0);
 
-        if (Growing && !m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        if (Growing && !m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From bd05b8c341ad841b9704381381e8a53864ccf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 14/74] fix: LP_Map::contains denied keys whose value is 0

---
 include/datastructures/LP_Map.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 3d5136d..748f3cb 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -91,7 +91,16 @@ public:
     }
 
     bool contains(const K &key) const {
-        return get(key) != 0;
+        ASSERT(key != 0);
+
+        for (K idx = m_hasher(key); ; idx++) {
+            idx &= m_arraySize - 1;
+            K probedKey = m_keys[idx];
+            if (probedKey == key)
+                return true;
+            if (probedKey == 0)
+                return false;
+        }
     }
 
     std::size_t count(const K &key) const {
-- 
2.43.0


From 2a6a8f4437535540bcef21601acb6bdf11f8c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 15/74] fix: LP_Set::merge with a filter ignored the polarity
 of the filter for its own elements

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c1211b4..fb92af4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -423,7 +423,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(2*(size() + other.size()), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From 97d9f59bd867023c99c56e84d0355eb9c2aeb16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 16/74] fix: copying an LP_Set did not end if its capacity
 exceeds the key type

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index fb92af4..83cc023 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -295,7 +295,7 @@ public:
         LP_Set<K, Growing> c(m_arraySize, m_hasher);
         c.m_items = m_items;
 
-        for(K i = 0; i < m_arraySize; ++i){
+        for(std::size_t i = 0; i < m_arraySize; ++i){
             c.m_array[i] = m_array[i];
         }
 
-- 
2.43.0


From b877850dd7735e87f29bdf15521009f6a676786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 17/74] fix: Multiscale_sort recursed without end if a half is
 empty (ratio 0 or 1, threshold 1)

---
 include/mods/Multiscale_sort.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mods/Multiscale_sort.h b/include/mods/Multiscale_sort.h
index a274474..e1a8e4b 100644
--- a/include/mods/Multiscale_sort.h
+++ b/include/mods/Multiscale_sort.h
@@ -45,9 +45,10 @@ public:
     void operator() (RandomAccessIterator begin, RandomAccessIterator end) const
     {
 	typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-        if (end - begin >= _threshold) {
-            auto middle = begin + difference_type (double(end - begin) * _ratio);
+        auto middle = begin + difference_type (double(end - begin) * _ratio);
 
+        // an empty half would leave the other one undivided forever
+        if (end - begin >= _threshold && middle != begin && middle != end) {
             auto left = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, begin, middle));
             auto right = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, middle, end));
 
-- 
2.43.0


From 0ff3b0936cc51beeb9c2257ba1fa7f5df5e1813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 18/74] fix: BlockedArray::at accepted the index one beyond the
 last block

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From f4cb8f23c83aa9efdc7a0f4f15d100c3d4d4b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 19/74] fix: VectorAdapter::contains claimed every id of a
 point

---
 include/datastructures/VectorAdapter.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/VectorAdapter.hxx b/include/datastructures/VectorAdapter.hxx
index 26b7880..c9dd20c 100644
--- a/include/datastructures/VectorAdapter.hxx
+++ b/include/datastructures/VectorAdapter.hxx
@@ -22,7 +22,7 @@ public:
     bool contains(const typename vector::size_type &i) const {
         PROFILER_INC("VectorAdapter_contains");
 
-        return (T::isFinite(i) ? (i >= m_offset && _finIdx(i) < finite_size()) : _infIdx(i)) < vector::size();
+        return T::isFinite(i) ? (i >= m_offset && _finIdx(i) < finite_size()) : _infIdx(i) < vector::size();
     }
 
     T &operator[](const typename vector::size_type i) {
-- 
2.43.0


From c1a7a630ab9d9474c139766a6ffac4dcea84ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 20/74] fix: predicates returned wrong signs when compiled with
 fused multiply-adds (-march=native)

---
 src/utils/Predicates.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index fd6723c..49566cc 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -120,6 +120,14 @@
 
 #include "utils/Predicates.h"
 
+// the arithmetic below relies on the rounding of each single operation, contracting a multiplication and an addition into a
+// fused operation (as -march=native permits) makes it inexact
+#if defined(__clang__)
+#pragma STDC FP_CONTRACT OFF
+#elif defined(__GNUC__)
+#pragma GCC optimize ("fp-contract=off")
+#endif
+
 //#ifdef USE_CGAL_PREDICATES
 //  #include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
 //  typedef CGAL::Exact_predicates_inexact_constructions_kernel cgalEpick;
-- 
2.43.0


From 6dcb807c02181b81678b13e246c020a354c10aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 21/74] fix: circumspheres are wrong far from the origin,
 vector difference is negated

---
 src/lib/Geometry.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..5798010 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -60,9 +60,9 @@ dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D,
 
 template<std::size_t D, typename Precision>
 dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
-    dVector<D, Precision> r = b;
+    dVector<D, Precision> r = a;
     for(uint d = 0; d < D; ++d)
-        r[d] -= a[d];
+        r[d] -= b[d];
     return r;
 }
 
@@ -187,10 +187,15 @@ public:
     }
 
     static dSphere<2, Precision>
-    circumsphere(const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
+    circumsphere(const dPoint<2, Precision> &p0, const dPoint<2, Precision> &p1, const dPoint<2, Precision> &p2) {
 
         dSphere<2, Precision> sphere;
 
+        // compute relative to p0, the squares and products below cancel far from the origin
+        const dPoint<2, Precision> s0(p0.coords - p0.coords);
+        const dPoint<2, Precision> s1(p1.coords - p0.coords);
+        const dPoint<2, Precision> s2(p2.coords - p0.coords);
+
         Precision den = 2 * (s0.coords[0] *
                              (s1.coords[1] -
                               s2.coords[1]) +
@@ -233,6 +238,8 @@ public:
                 sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
                      pow(sphere.center[1] - s0.coords[1], 2));
 
+        sphere.center = sphere.center + p0.coords;
+
         return sphere;
     }
 };
@@ -410,10 +417,16 @@ public:
     }
 
     static dSphere<3, Precision>
-    circumsphere(const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
+    circumsphere(const dPoint<3, Precision> &p0, const dPoint<3, Precision> &p1, const dPoint<3, Precision> &p2, const dPoint<3, Precision> &p3) {
 
         dSphere<3, Precision> sphere;
 
+        // compute relative to p0, the squares and products below cancel far from the origin
+        const dPoint<3, Precision> s0(p0.coords - p0.coords);
+        const dPoint<3, Precision> s1(p1.coords - p0.coords);
+        const dPoint<3, Precision> s2(p2.coords - p0.coords);
+        const dPoint<3, Precision> s3(p3.coords - p0.coords);
+
         Precision den = 2 * (s0.coords[0] *
                              (s2.coords[1] *
                               s3.coords[2] +
@@ -717,6 +730,8 @@ public:
                      pow(sphere.center[1] - s0.coords[1], 2) +
                      pow(sphere.center[2] - s0.coords[2], 2));
 
+        sphere.center = sphere.center + p0.coords;
+
         return sphere;
     }
 };
-- 
2.43.0


From 8424d06d4b5290c8f371eb6d54a4f38f2e0d18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 22/74] fix: equalNeighbors reports equal neighbors as
 different

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..7d3b896 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -499,7 +499,7 @@ public:
     bool equalNeighbors(const dSimplex<D, Precision> &a) const {
         PROFILER_INC("dSimplex_equalNeighbors");
 
-        return neighbors != a.neighbors;
+        return neighbors == a.neighbors;
     }
 
     bool operator==(const tIdType a) const { return id == a; }
-- 
2.43.0


From 2e3b5401a8479a0b8e67813f69d0f9e6d19a97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 23/74] fix: findNearestSimplex starts at an unused entry or
 returns an id that does not exist

---
 include/Geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 7d3b896..4494266 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -842,7 +842,7 @@ public:
         auto cmp = [](const pqItem &a, const pqItem &b) { return a.first > b.first; };
 
         if(hintSimplex == dSimplex<D, Precision>::cINF){
-            hintSimplex = this->lowerBound();
+            hintSimplex = this->begin()->id; // the entry at the lower bound need not be a simplex
         }
 
         std::priority_queue<pqItem, std::vector<pqItem>, decltype(cmp)> pQueue(cmp);
@@ -853,7 +853,7 @@ public:
 
         uint hintBlock = 0;
         Precision minD = std::numeric_limits<Precision>::max();
-        tIdType minDId = dPoint<D, Precision>::cINF;
+        tIdType minDId = hintSimplex;
 
         VTUNE_TASK(FindNearestSimplex);
         while (!pQueue.empty()) {
-- 
2.43.0


From 6af06fba22c1c59f33a25e0cfd6b37eb9656bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 24/74] fix: isPowN refuses 1, so that the d-way splitter
 refuses a single thread

---
 include/utils/Misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 04e008e..1872e40 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -14,7 +14,7 @@ T isPow2(const T x) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T isPowN(const T x, const T n) {
-    return x != 0 && x % n == 0;
+    return x == 1 || (x != 0 && x % n == 0);
 }
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
-- 
2.43.0


From 110b6e9567c25ee8c43d9a6550dcfe3a2b54d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 25/74] fix: maximum of point statistics is wrong if no
 coordinate is positive

---
 include/Partitioner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From b8fa82a42bda6dee4f109b1643b06baac5d9e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:02 +0000
Subject: [PATCH 26/74] fix: searching a completely filled set of fixed size
 for an absent key does not end

---
 include/datastructures/LP_Set.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 83cc023..b2e48c7 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -332,7 +332,9 @@ public:
     bool contains(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        // the table may be full, look at every entry once at most
+        for (std::size_t n = 0; n < m_arraySize; ++n, idx++) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx];
             if (probedKey == key)
@@ -341,6 +343,7 @@ public:
                 return false;
         }
 
+        return false;
     }
 
     std::size_t count(const K &key) const {
@@ -620,7 +623,9 @@ public:
     K get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        // the table may be full, look at every entry once at most
+        for (std::size_t n = 0; n < m_arraySize; ++n, idx++) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx].load();
             if (probedKey == key)
@@ -629,6 +634,7 @@ public:
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
-- 
2.43.0


From f9035ea044464a3b3e10ae2839e821157ded97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:42 +0000
Subject: [PATCH 27/74] fix: ExtendPartitioner has no dimension to split if all
 points coincide

---
 src/lib/Partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..9c58372 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -200,7 +200,7 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
 
     // determine most vast dimension
     Precision maxExtend = 0;
-    int maxDim = -1;
+    int maxDim = 0; // if all points coincide
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
-- 
2.43.0


From d110b8e6487a82760fffbc86d92dd586ce13f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 28/74] fix: auxiliary points did not enclose points that lie
 away from the origin

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0


From 2669409bed7f423dc69c3ad8d44d4da0451fc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 29/74] fix: in-sphere test was wrong for small coordinates
 where the product of the predicates underflows

---
 src/lib/Geometry.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 5798010..a8b01ee 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -66,6 +66,11 @@ dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D,
     return r;
 }
 
+template<typename Precision>
+int sign(const Precision x){
+    return (x > 0) - (x < 0);
+}
+
 // specializations
 
 template<typename Precision>
@@ -183,7 +188,8 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return orientation(s0, s1, s2) * Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()) >= 0;
+        // the product of the two values may underflow, the product of their signs does not
+        return sign(orientation(s0, s1, s2)) * sign(Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data())) >= 0;
     }
 
     static dSphere<2, Precision>
@@ -413,7 +419,8 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return orientation(s0, s1, s2, s3) * Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()) >= 0;
+        // the product of the two values may underflow, the product of their signs does not
+        return sign(orientation(s0, s1, s2, s3)) * sign(Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data())) >= 0;
     }
 
     static dSphere<3, Precision>
-- 
2.43.0


From b4045aedb4a6fc03ee6ef37bb89333ef2017aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 30/74] fix: verification rejected cospherical points and
 accepted misplaced or dangling neighbors

---
 include/Geometry.h   | 37 +++++++++++++++++++++++++++++++++++
 src/lib/Geometry.cpp | 46 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 4494266..6d3e1df 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -376,6 +376,14 @@ public:
                          const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1, const dPoint<D, Precision> &s2,
                          const dPoint<D, Precision> &s3);
 
+    static int sideOfSphere(const dPoint<D, Precision> &p,
+                            const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1,
+                            const dPoint<D, Precision> &s2);
+
+    static int sideOfSphere(const dPoint<D, Precision> &p,
+                            const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1, const dPoint<D, Precision> &s2,
+                            const dPoint<D, Precision> &s3);
+
     static dSphere<D, Precision>
             circumsphere(const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1,
                          const dPoint<D, Precision> &s2);
@@ -408,6 +416,11 @@ public:
                          const dPoint<D, Precision> &p,
                          const Collection &points);
 
+    template<class Collection>
+    static int sideOfSphere(const dSimplex<D, Precision> &simplex,
+                            const dPoint<D, Precision> &p,
+                            const Collection &points);
+
     template<class Collection>
     static dSphere<D, Precision>
             circumsphere(const dSimplex<D, Precision> &simplex,
@@ -584,6 +597,14 @@ public:
         return GeometryHelper<D, Precision>::inSphere(*this, p, points);
     }
 
+    // > 0: p inside, < 0: p outside, 0: p on the circumsphere
+    template<class Collection>
+    int sideOfSphere(const dPoint<D, Precision> &p, const Collection &points) const {
+        PROFILER_INC("dSimplex_inSphere");
+
+        return GeometryHelper<D, Precision>::sideOfSphere(*this, p, points);
+    }
+
     template<class Collection>
     Precision sqDistanceToFace(const uint d,
                                const dPoint<D, Precision> &p,
@@ -1029,6 +1050,14 @@ public:
                                                     points[simplex.vertices[2]]);
     }
 
+    template<class Collection>
+    static int sideOfSphere(const dSimplex<2, Precision> &simplex,
+                            const dPoint<2, Precision> &p,
+                            const Collection &points) {
+        return GeometryCore<2, Precision>::sideOfSphere(p, points[simplex.vertices[0]], points[simplex.vertices[1]],
+                                                        points[simplex.vertices[2]]);
+    }
+
     template<class Collection>
     static dSphere<2, Precision>
     circumsphere(const dSimplex<2, Precision> &simplex,
@@ -1086,6 +1115,14 @@ public:
                                                     points[simplex.vertices[2]], points[simplex.vertices[3]]);
     }
 
+    template<class Collection>
+    static int sideOfSphere(const dSimplex<3, Precision> &simplex,
+                            const dPoint<3, Precision> &p,
+                            const Collection &points) {
+        return GeometryCore<3, Precision>::sideOfSphere(p, points[simplex.vertices[0]], points[simplex.vertices[1]],
+                                                        points[simplex.vertices[2]], points[simplex.vertices[3]]);
+    }
+
     template<class Collection>
     static dSphere<3, Precision>
     circumsphere(const dSimplex<3, Precision> &simplex,
diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index a8b01ee..4f1d6e8 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -152,6 +152,12 @@ public:
 
     static bool inSphere(const dPoint<2, Precision> &p,
                          const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
+        return sideOfSphere(p, s0, s1, s2) >= 0;
+    }
+
+    // return > 0: p inside, < 0: p outside, 0: p on the circumsphere
+    static int sideOfSphere(const dPoint<2, Precision> &p,
+                            const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
 //        Precision adx, ady, bdx, bdy, cdx, cdy;
 //        Precision abdet, bcdet, cadet;
 //        Precision alift, blift, clift;
@@ -189,7 +195,7 @@ public:
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
         // the product of the two values may underflow, the product of their signs does not
-        return sign(orientation(s0, s1, s2)) * sign(Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data())) >= 0;
+        return sign(orientation(s0, s1, s2)) * sign(Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()));
     }
 
     static dSphere<2, Precision>
@@ -363,6 +369,12 @@ public:
 
     static bool inSphere(const dPoint<3, Precision> &p,
                          const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
+        return sideOfSphere(p, s0, s1, s2, s3) >= 0;
+    }
+
+    // return > 0: p inside, < 0: p outside, 0: p on the circumsphere
+    static int sideOfSphere(const dPoint<3, Precision> &p,
+                            const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
 
 //        Precision aex, bex, cex, dex;
 //        Precision aey, bey, cey, dey;
@@ -420,7 +432,7 @@ public:
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
         // the product of the two values may underflow, the product of their signs does not
-        return sign(orientation(s0, s1, s2, s3)) * sign(Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data())) >= 0;
+        return sign(orientation(s0, s1, s2, s3)) * sign(Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()));
     }
 
     static dSphere<3, Precision>
@@ -936,7 +948,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
     for (const auto &s : *this) {
         usedPoints.insert(s.vertices.begin(), s.vertices.end());
     }
-    if (points != usedPoints) {
+    if (pointIds || points != usedPoints) {
         // not all points of input used
         std::stringstream sNotUsed;
 
@@ -949,7 +961,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 }
             }
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
+            // zero is reserved
+            for (std::size_t i = points.offset() + 1; i < points.offset() + points.finite_size(); ++i) {
                 const auto &p = points[i];
                 if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
                     sNotUsed << i << " - " << p << " ";
@@ -1003,6 +1016,13 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (auto i = r.begin(); i != r.end(); ++i) {
 
+            if (!thisHandle.contains(convexHull[i])) {
+                tbb::spin_mutex::scoped_lock lock(mtx);
+                LOG("Convex hull names missing simplex " << convexHull[i] << std::endl);
+                result.valid = false;
+                continue;
+            }
+
             const dSimplex<D, Precision> &s = thisHandle.at(convexHull[i]);
             if (s.isFinite()) {
                 // s is finite but part of convex hull
@@ -1113,6 +1133,19 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                         result.valid = false;
                     }
                 }
+
+                // the neighbor stored for a face must exist and share that very face
+                const auto &n = a.neighbors[i];
+                if (dSimplex<D, Precision>::isFinite(n)
+                    && (!thisHandle.contains(n)
+                        || !a.isNeighbor(thisHandle.at(n))
+                        || thisHandle.at(n).contains(a.vertices[i]))) {
+
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor " << n << " of " << a << std::endl);
+                    result.wrongNeighbors.emplace_back(a, thisHandle.contains(n) ? thisHandle.at(n) : a);
+                    result.valid = false;
+                }
             }
         }
     });
@@ -1129,7 +1162,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
                     continue;
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
@@ -1137,7 +1170,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                     if (dPoint<D,Precision>::isFinite(nn.vertices[d]) && !s.contains(nn.vertices[d])) {
                         // we have found the point of nn that is NOT shared with s
                         const auto &p = points[nn.vertices[d]];
-                        if (s.inSphere(p, points)) {
+                        // points on the sphere do not violate the criterion
+                        if (s.sideOfSphere(p, points) > 0) {
                             LOG("Point " << nn.vertices[d] << " " << p << " is in circle of " << s << std::endl);
 
                             tbb::spin_mutex::scoped_lock lock(mtx);
-- 
2.43.0


From 96df340116dec7de210c2484bc322a1e7d48cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 31/74] fix: cross check stopped listing missing simplices
 after the first one of a range

---
 src/lib/Geometry.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 4f1d6e8..8624d25 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -858,17 +858,17 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue;
             }
 
             // check neighbors
             for (const auto &n : realSimplex.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !realHandle.contains(n))
                     continue;
 
                 bool found = false;
                 for (const auto &nn : thisHandle.at(mySimplex->second).neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(nn) &&
+                    if (dSimplex<D, Precision>::isFinite(nn) && thisHandle.contains(nn) &&
                         thisHandle.at(nn).equalVertices(realHandle[n])) {
                         found = true;
                         break;
-- 
2.43.0


From ea6a5b64b1ea61e4672a1c7628336cfad9faeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 32/74] fix: box hierarchy left out cells of points on a cell
 border, their partition was missed

---
 include/datastructures/AABBTree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..98f7dfa 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -246,10 +246,11 @@ private:
 
     static dBox<D, Precision> round(dBox<D, Precision> bounds, const Precision cell_size) {
 
-        // round bounds to cell size
+        // round bounds to the borders of the cells that contain them; a point on the border between two cells
+        // belongs to the upper one
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From 459703208d10354fa912315c22dde947c16517f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 33/74] fix: threads making partition bounds shared the words
 of a vector<bool>

---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..f66f538 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions, false); // written concurrently, no vector<bool>
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..dd00bca 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions, false); // written concurrently, no vector<bool>
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From 38892cf74763660bead86e194ab921c44fdcc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 34/74] fix: border simplices around a partition amidst another
 one were not found

---
 include/LoadBalancedDCTriangulator.tpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 9adb3b8..bcd3b4b 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -154,7 +154,31 @@ namespace LoadBalancing
         INDENT
 
         VTUNE_TASK(IdentifyEdge);
-        tbb::parallel_do(simplices.convexHull, [&](const tIdType id,
+
+        /* The walk reaches all of the border from the convex hull, unless another partition has points amidst
+        * this one. Its surroundings need not be connected with the hull, so test all simplices in this case
+        */
+        bool overlaps = false;
+        for (uint i = 0; i < partitioning.size() && !overlaps; ++i) {
+            if (i != partition) {
+                const auto &a = partitioning[partition].bounds;
+                const auto &b = partitioning[i].bounds;
+
+                overlaps = true;
+                for (uint d = 0; d < D; ++d) {
+                    if (a.high[d] <= b.low[d] || b.high[d] <= a.low[d])
+                        overlaps = false;
+                }
+            }
+        }
+
+        Id_Vector startSimplices(simplices.convexHull.begin(), simplices.convexHull.end());
+        if (overlaps) {
+            for (const auto &simplex : simplices)
+                startSimplices.push_back(simplex.id);
+        }
+
+        tbb::parallel_do(startSimplices, [&](const tIdType id,
                                                 tbb::parallel_do_feeder<tIdType> &feeder) {
 
             if (!dSimplex<D, Precision>::isFinite(id))
-- 
2.43.0


From cf485a549d523c9f9e7e226099bf38ead5324a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 35/74] fix: a single child that is divided further threw
 bad_variant_access

---
 include/LoadBalancedDCTriangulator.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index bcd3b4b..c26164e 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -710,8 +710,9 @@ namespace LoadBalancing
 
         } else { // base case
             if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)){
-                return _triangulateBase(std::get<Point_Ids>(
-                        std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)[0].attachment), bounds, provenance, mParallelBaseCase);
+                // a single child stands for the whole tree, whether it is divided further or not
+                return recursiveTriangulate(std::move(
+                        std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)[0]), provenance);
             } else {
                 return _triangulateBase(std::get<Point_Ids>(tree.attachment), bounds, provenance, mParallelBaseCase);
             }
-- 
2.43.0


From 2209fd722870ecf4f389a485594948ff6289d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 36/74] fix: partitions without points spoiled the merged
 triangulation

---
 include/LoadBalancedDCTriangulator.tpp | 10 ++++++++++
 include/load_balancing/PartitionTree.h | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index c26164e..b659953 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -605,6 +605,16 @@ namespace LoadBalancing
 
         const auto& bounds = tree.intersectionChecker->bounds();
 
+        // leave out children that hold no points besides the infinite ones, their triangulation is not part of the
+        // result
+        if (auto children = std::get_if<typename PartitionTree<D, Precision>::ChildContainer>(&tree.attachment)) {
+            auto last = std::remove_if(children->begin(), children->end(),
+                                       [](const PartitionTree<D, Precision>& child) { return !child.hasFinitePoints(); });
+            if (last == children->begin() && last != children->end())
+                ++last;
+            children->erase(last, children->end());
+        }
+
         if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)
                 && std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment).size() > 1) {
             VTUNE_TASK(TriangulateRecursive);
diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 1536757..4d6ad25 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -70,6 +70,18 @@ namespace LoadBalancing
             return std::holds_alternative<Point_Ids>(attachment);
         }
 
+        bool hasFinitePoints() const {
+            if(auto children = std::get_if<ChildContainer>(&attachment))
+                return std::any_of(children->begin(), children->end(), [](const PartitionTree& child) {
+                    return child.hasFinitePoints();
+                });
+
+            const auto& ids = std::get<Point_Ids>(attachment);
+            return std::any_of(ids.begin(), ids.end(), [](tIdType id) {
+                return dPoint<D, Precision>::isFinite(id);
+            });
+        }
+
 	private:
         static void flattenContainer(ChildContainer& children)
 		{
-- 
2.43.0


From 2c0e942066b13cbb3161aa13b625ecd9091e1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:45 +0000
Subject: [PATCH 37/74] fix: a file that could not be written completely was
 reported as stored

---
 include/utils/Serialization.hxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/utils/Serialization.hxx b/include/utils/Serialization.hxx
index 8230d09..39bc931 100644
--- a/include/utils/Serialization.hxx
+++ b/include/utils/Serialization.hxx
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 // boost
 #include <boost/archive/binary_iarchive.hpp>
@@ -16,8 +18,15 @@ template<class Object>
 void storeObject(Object &o, const std::string &file) {
 
     std::ofstream f(file, std::ios::trunc | std::ios::out | std::ios::binary);
-    boost::archive::binary_oarchive oa(f);
-    oa << o;
+    {
+        boost::archive::binary_oarchive oa(f);
+        oa << o;
+    }
+
+    // the last part of the archive is written when the file is closed
+    f.close();
+    if (!f)
+        throw std::runtime_error("could not write " + file);
 }
 
 template<class Object>
-- 
2.43.0


From 70083c330557168c6bc5123ef3bb1b807254724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 38/74] fix: loading a BlockedArray2 of several blocks
 dereferenced null pointers

---
 include/datastructures/BlockedArray2.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..03af59c 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -602,6 +602,7 @@ private:
         m_blocks.resize(n);
 
         for (std::size_t i = 0; i < n; ++i) {
+            m_blocks[i] = std::make_unique<block>(0, 0);
             ar >> *m_blocks[i];
         }
     }
-- 
2.43.0


From bf4fb193f20acc14f6b07f0aef2623ad8d6ea8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 39/74] fix: stored simplices kept their marks, but not the
 current mark they are compared to

---
 include/Geometry.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Geometry.h b/include/Geometry.h
index 6d3e1df..18ee0c9 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -964,6 +964,7 @@ private:
     void serialize(Archive &ar, __attribute((unused)) const unsigned int version) {
         ar & boost::serialization::base_object<base>(*this);
         ar & convexHull;
+        ar & mark; // the simplices keep theirs as well
     }
 
 
-- 
2.43.0


From 20d4bf69c6bf48279ff196354f7ec2056812633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 40/74] fix: the upper bound of loaded points without positive
 coordinate was the smallest positive number

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 18ee0c9..80205f9 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
-- 
2.43.0


From 6c8dc61abd6233aecaef75a8d2c8cca7094bdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 41/74] fix: loading points read beyond the fields of an
 incomplete line

---
 include/Geometry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Geometry.h b/include/Geometry.h
index 80205f9..834a5f2 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -279,6 +279,8 @@ public:
                 split(fields, line, sep);
 
                 ASSERT(fields.size() == D);
+                if(fields.size() < D)
+                    throw std::runtime_error("file " + file + ": not a point: '" + line + "'");
 
                 for(uint d = 0; d < D; ++d){
                     p.coords[d] = std::stod(fields[d]);
-- 
2.43.0


From ff70d6f7071094c20ea599de70f5c68f966c941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 42/74] fix: box helpers did not compile for single precision

---
 include/load_balancing/BoxUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index 5e7674a..483c1d2 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -64,7 +64,7 @@ namespace LoadBalancing
     template <uint D, typename Precision>
     dVector<D, Precision> vecToLowerQuadrant(dVector<D, Precision> v) {        
         std::transform(begin(v), end(v), begin(v), [](Precision x) {
-            return std::max(x, 0.0);
+            return std::max<Precision>(x, 0);
         });
         return v;
     }
-- 
2.43.0


From 8f5e50553f95234725e75df3ce605b294b8954db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 43/74] fix: generators drew the same points on every call,
 they used a copy of the random generator

---
 include/utils/Generator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..a478f92 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -56,7 +56,7 @@ protected:
               tGenerator &gen) const {
 
         std::uniform_real_distribution<Precision> distribution(0, 1);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> dim = bounds.high;
         for (uint d = 0; d < D; ++d) {
@@ -89,7 +89,7 @@ protected:
               tGenerator &gen) const {
 
         std::normal_distribution<Precision> distribution(0, 0.5);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> midpoint = bounds.low;
         dVector<D, Precision> span = bounds.high;
@@ -129,7 +129,7 @@ protected:
               tGenerator &gen) const {
 
         std::normal_distribution<Precision> distribution(0, 0.5);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> gMidpoint = bounds.low;
 
@@ -192,7 +192,7 @@ protected:
               tGenerator &gen) const {
 
         std::normal_distribution<Precision> distribution(0, 1);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> radius;
         dVector<D, Precision> center = bounds.low;
@@ -252,7 +252,7 @@ protected:
               Precision skew) const {
 
         std::uniform_real_distribution<Precision> distribution(0, 1);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> a = bounds.low;
         a[1] += skew * (bounds.high[1] - bounds.low[1]);
-- 
2.43.0


From 20b4eac71ed06457ed32485190bb5b692e7488fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 44/74] fix: the bubble generator left points unset if their
 number is no multiple of the number of bubbles

---
 include/utils/Generator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index a478f92..0f2578a 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -161,7 +161,9 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            // the last bubble takes the points that are left over
+            const tIdType last = b + 1 < bubbles.size() ? (b+1)*ppB : n;
+            for (tIdType i = b*ppB + 1; i <= last; ++i) {
                 dPoint<D, Precision> p;
 
                 do {
-- 
2.43.0


From fe0be79076ef98231d848b2f349555419b5d549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 45/74] fix: the line generator left the last of an odd number
 of points unset

---
 include/utils/Generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 0f2578a..2181334 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -276,7 +276,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -288,7 +288,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i < n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From dcd60e98eb5012353b8926b99744d889dfe82425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:18 +0000
Subject: [PATCH 46/74] fix: bubble generators of the load balancing overwrote
 the reserved point and left the last one unset

---
 include/load_balancing/MaliciousBubbleGenerator.h | 2 +-
 include/load_balancing/UnboundBubbleGenerator.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..7f37bd1 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -43,7 +43,7 @@ protected:
                 });
                 coords = coords * radius + center;
             } while(!bounds.contains(coords));            
-            points[i] = coords;
+            points[i + 1] = coords;
         }
     }
     
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..aaf4c28 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -61,7 +61,7 @@ protected:
                 return pointDist(gen);
             });
             
-            points[i] = bubbleCenters[centerIndex] + coords;
+            points[i + 1] = bubbleCenters[centerIndex] + coords;
         }
     }
 };
-- 
2.43.0


From ad44c4fe399ec5729200c179bf9e62ccf21bfd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:18 +0000
Subject: [PATCH 47/74] fix: the index of a bubble was out of range for many
 points, the single precision quotient was rounded up

---
 include/load_balancing/MaliciousBubbleGenerator.h | 2 +-
 include/load_balancing/UnboundBubbleGenerator.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 7f37bd1..2168184 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -32,7 +32,7 @@ protected:
         std::normal_distribution<Precision> pointDist(0.0, 0.5);
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             const auto& center = bubbleCenters[centerIndex];
             const auto& radius = bubbleRadiuses[centerIndex];
                   
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index aaf4c28..a51e9ea 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -54,7 +54,7 @@ protected:
         });
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             
             dVector<D, Precision> coords;
             std::generate(coords.begin(), coords.end(), [&pointDist, &gen]() -> auto {
-- 
2.43.0


From 747f126857d5826882c34970450b827c9ae98682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:41 +0000
Subject: [PATCH 48/74] fix: the ellipsoid generator made an invalid point of a
 normal distributed point in the origin

---
 include/utils/Generator.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 2181334..de9a800 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -213,11 +213,14 @@ protected:
             dPoint<D, Precision> p;
 
             //normal distributed point around origin
-            Precision r = 0; //radius
-            for (uint d = 0; d < D; ++d) {
-                p.coords[d] = dice();
-                r += p.coords[d] * p.coords[d];
-            }
+            Precision r; //radius
+            do {
+                r = 0;
+                for (uint d = 0; d < D; ++d) {
+                    p.coords[d] = dice();
+                    r += p.coords[d] * p.coords[d];
+                }
+            } while(r == 0); // the origin has no direction
 
             r = std::sqrt(r);
 
-- 
2.43.0


From 707efb363132e768c4abed8cada44f55332159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:05 +0000
Subject: [PATCH 49/74] fix: partition trees could not be copied without a test
 or by assignment, the simple partitioner did not implement the interface

---
 include/load_balancing/PartitionTree.h     | 5 ++---
 include/load_balancing/SimplePartitioner.h | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 4d6ad25..6e432f7 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -22,7 +22,7 @@ namespace LoadBalancing
 		PartitionTree() = default;
         
 		PartitionTree(const PartitionTree& obj)
-			: intersectionChecker(obj.intersectionChecker->copy()), attachment(obj.attachment)
+			: intersectionChecker(obj.intersectionChecker ? obj.intersectionChecker->copy() : nullptr), attachment(obj.attachment)
 		{
 		}
 
@@ -30,8 +30,7 @@ namespace LoadBalancing
 
 		PartitionTree& operator=(const PartitionTree& rhs)
 		{
-			intersectionChecker = rhs.intersectionChecker.copy();
-			attachment = rhs.attachment;
+			return *this = PartitionTree(rhs);
 		}
 
 		PartitionTree& operator=(PartitionTree&&) = default;
diff --git a/include/load_balancing/SimplePartitioner.h b/include/load_balancing/SimplePartitioner.h
index f7a0715..3e1e8a4 100644
--- a/include/load_balancing/SimplePartitioner.h
+++ b/include/load_balancing/SimplePartitioner.h
@@ -13,7 +13,8 @@ namespace LoadBalancing
     {        
         PartitionTree<D, Precision> partition(const dBox<D, Precision>& bounds,
                                         dPoints<D, Precision>& points,
-                                        const Point_Ids& pointIds) override
+                                        const Point_Ids& pointIds,
+                                        MonitorT& /*monitor*/) override
         {
             auto x = (bounds.low[0] + bounds.high[0])/2;            
             auto boxPair = splitBox(bounds, 0, x);
-- 
2.43.0


From 96c5e4e6ea319e010f578a268cd3bd6547855ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:53 +0000
Subject: [PATCH 50/74] fix: the sample contained fewer points than asked for
 or none, auxiliary points were drawn and dropped

---
 include/load_balancing/sample_partitioner/Sampler.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index c07ad68..92d438b 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -159,14 +159,13 @@ namespace LoadBalancing
         template <typename Generator_t>
         Point_Ids generateSample(size_t sampleSize, const Point_Ids& pointIds, Generator_t& rand) {
 			VTUNE_TASK(GenerateSample);
+            std::vector<tIdType> finiteIds;
+            std::copy_if(pointIds.begin(), pointIds.end(), std::back_inserter(finiteIds), [](tIdType id) {
+                return dPoint<D, Precision>::isFinite(id);
+            });
             std::vector<tIdType> resultIds;
-            std::sample(pointIds.begin(), pointIds.end(), std::back_inserter(resultIds),
+            std::sample(finiteIds.begin(), finiteIds.end(), std::back_inserter(resultIds),
                         sampleSize, rand);
-            resultIds.erase(std::remove_if(resultIds.begin(), resultIds.end(), [](tIdType id){
-                return !dPoint<D, Precision>::isFinite(id);
-                
-            }),
-            resultIds.end());
             Point_Ids result;
             for(auto id : resultIds) {
 	            result.insert(id);
-- 
2.43.0


From 9370dc34d37dc848fcfe9a3b44448cde652d6763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 51/74] fix: the tree of the nearest sample point bipartitioner
 had no bounds at its root

---
 .../NearestSamplePointAssigningSampleBipartitioner.h            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
index 9a721f8..142d8fc 100644
--- a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
@@ -81,6 +81,8 @@ namespace LoadBalancing
 
 				leftTree.intersectionChecker = std::move(children[0].intersectionChecker);
 				rightTree.intersectionChecker = std::move(children[1].intersectionChecker);
+				result.intersectionChecker =
+					std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 				result.attachment = typename decltype(tree)::ChildContainer {
 					std::move(leftTree), std::move(rightTree)};
 			} else {
-- 
2.43.0


From 4eefdb68254b061f246132575ff827e3a279f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 52/74] fix: the hyperplane bipartitioner had no hyperplane
 where the sample does not determine one

---
 .../HyperplaneBipartitioner.h                 | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
index 9b4b2d3..df8ac1e 100644
--- a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
@@ -73,30 +73,40 @@ namespace LoadBalancing
 				const auto m = splitPoints.size();
 				constexpr auto n = D + 1;
 
-				using Vector = Eigen::Matrix<Precision, Eigen::Dynamic, 1>;
-				using Matrix = Eigen::Matrix<Precision, Eigen::Dynamic, Eigen::Dynamic>;
-				Vector zero(m);
-				Matrix matrix(m, n);
-				for(size_t i = 0; i < m; ++i) {
-					zero(i) = 0;
-				}
-				for(size_t i = 0; i < m; ++i) {
-					for(size_t j = 0; j < D; ++j) {
-						matrix(i, j) = splitPoints[i][j];
+				dVector<D, Precision> normal;
+				Precision offset;
+				Precision length = 0;
+				if(m > 0) {
+					using Vector = Eigen::Matrix<Precision, Eigen::Dynamic, 1>;
+					using Matrix = Eigen::Matrix<Precision, Eigen::Dynamic, Eigen::Dynamic>;
+					Matrix matrix(m, n);
+					for(size_t i = 0; i < m; ++i) {
+						for(size_t j = 0; j < D; ++j) {
+							matrix(i, j) = splitPoints[i][j];
+						}
+						matrix(i, D) = 1;
 					}
-					matrix(i, D) = 1;
-				}
 
-				Eigen::JacobiSVD<Matrix> svd(matrix, Eigen::ComputeFullV);
-				Vector vector = svd.matrixV().col(D);
+					Eigen::JacobiSVD<Matrix> svd(matrix, Eigen::ComputeFullV);
+					Vector vector = svd.matrixV().col(D);
+
+					dVector<D, Precision> orthogonal;
+					for(size_t j = 0; j < D; ++j) {
+						orthogonal[j] = vector(j);
+					}
 
-				dVector<D, Precision> orthogonal;
-				for(size_t j = 0; j < D; ++j) {
-					orthogonal[j] = vector(j);
+					length = len(orthogonal);
+					if(length > 0) {
+						normal = 1/length * orthogonal;
+						offset = -vector(D)/scalarProduct(normal, orthogonal);
+					}
+				}
+				if(!(length > 0)) {
+					// the sample does not determine a hyperplane, split the bounds in the middle
+					normal.fill(0);
+					normal[0] = 1;
+					offset = (bounds.low[0] + bounds.high[0])/2;
 				}
-				
-				auto normal = 1/len(orthogonal) * orthogonal;
-				auto offset = -vector(D)/scalarProduct(normal, orthogonal);
 
 				// separate points
 				Concurrent_Growing_Point_Ids leftIdset(pointIds.size() / 2);
-- 
2.43.0


From 882604f3a02c24c210d2d46b863e664e97510829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:29 +0000
Subject: [PATCH 53/74] fix: the accurate grid test referred to the ids of a
 partition that no longer exists and leaked the plain test

---
 .../load_balancing/AccurateGridIntersectionChecker.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..197166c 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -22,7 +22,6 @@ namespace LoadBalancing
 
 		private:
 		const dPoints<D, Precision>* points;
-		const Point_Ids* pointIds;
 		std::shared_ptr<CellsWithPoints> mCells;
 
 
@@ -41,11 +40,9 @@ namespace LoadBalancing
 
 		AccurateGridIntersectionChecker(GridIntersectionChecker<D, Precision> gic,
 		                                std::shared_ptr<CellsWithPoints> cells,
-		                                const dPoints<D, Precision>& points,
-		                                const Point_Ids& pointIds)
+		                                const dPoints<D, Precision>& points)
 			: GridIntersectionChecker<D, Precision>(std::move(gic)),
 			  points(&points),
-			  pointIds(&pointIds),
 			  mCells(std::move(cells)) { }
 		
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
@@ -56,8 +53,7 @@ namespace LoadBalancing
 				auto it = mCells->find(cell);
 				assert(it != mCells->end());
 				for(tIdType pointId : it->second.pointIds) {
-					if(pointIds->contains(pointId)
-					   && checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
+					if(checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
 						return true;
 				}
 			}
@@ -137,10 +133,10 @@ namespace LoadBalancing
 			for(auto& partition : gridIntersectionPartitioning) {
 				auto intersectionChecker = std::move(partition.intersectionChecker);
 				auto gridIntersectionChecker =
-					*(dynamic_cast<GIC*>(intersectionChecker.release()));
+					*(dynamic_cast<GIC*>(intersectionChecker.get()));
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
-					                       cellsPtr, points, ids);
+					                       cellsPtr, points);
 			}
 
 			return gridIntersectionPartitioning;
-- 
2.43.0


From 299ce345a466cd492a6a83d9a8f54ccc75924d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:14 +0000
Subject: [PATCH 54/74] fix: the scale of the edge weights of the sample was
 cut to an integer, all weights were the same

---
 include/load_balancing/sample_partitioner/Sampler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index 92d438b..dcdeaeb 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -36,7 +36,7 @@ namespace LoadBalancing
 	private:
 		const In minIn, maxIn;
 		const Out minOut, maxOut;
-		const Out scale;
+		const In scale;
 	};
 	
     struct Graph {
-- 
2.43.0


From 489087920eda6dd891fbb828dcce43561e64c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:18 +0000
Subject: [PATCH 55/74] fix: the centers of the sample partitions were drawn
 towards the origin

---
 .../CenterDistancePointAssigningSamplePartitioner.h           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h b/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
index 3b461da..bedcfc1 100644
--- a/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
+++ b/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
@@ -19,8 +19,8 @@ namespace LoadBalancing
         for(size_t i = 0; i < partitioning.size(); ++i) {
             int partition = partitioning[i];
             ++numPoints[partition];
-            result[partition] = result[partition] * ((Precision)numPoints[partition]/(1 + numPoints[partition]))
-                              + samplePoints[i] * ((Precision)1/(1 + numPoints[partition]));
+            result[partition] = result[partition] * ((Precision)(numPoints[partition] - 1)/numPoints[partition])
+                              + samplePoints[i] * ((Precision)1/numPoints[partition]);
         }
         return result;
     }
-- 
2.43.0


From 6d778a1afd4d8ef7136fa11f08dd12b6fbbabec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:18 +0000
Subject: [PATCH 56/74] fix: points were assigned to partitions without sample
 points, by an uninitialised box or the origin

---
 .../BoundsDistancePointAssigningSamplePartitioner.h  | 12 ++++++++++--
 .../CenterDistancePointAssigningSamplePartitioner.h  |  5 +++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h b/include/load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h
index 34b1630..a753414 100644
--- a/include/load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h
+++ b/include/load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h
@@ -25,7 +25,12 @@ namespace LoadBalancing
         
         std::vector<dBox<D, Precision>> result(partitions);
         for(size_t i = 0; i < partitions; ++i) {
-            result[i] = makeBoundingBox(samplePartitions[i].begin(), samplePartitions[i].end());            
+            if(!samplePartitions[i].empty()) {
+                result[i] = makeBoundingBox(samplePartitions[i].begin(), samplePartitions[i].end());
+            } else {
+                result[i].low.fill(std::numeric_limits<Precision>::infinity());
+                result[i].high.fill(-std::numeric_limits<Precision>::infinity());
+            }
         }
         return result;
     }
@@ -87,7 +92,10 @@ namespace LoadBalancing
 				std::vector<Precision> boxDistances(boxes.size());
 				std::transform(boxes.begin(), boxes.end(), boxDistances.begin(),
 							   [&coords](const dBox<D, Precision>& box) {
-									return lenSquared(vecToBox<D, Precision>(coords, box));
+									// partitions without sample points attract no points
+									return box.low[0] <= box.high[0]
+										? lenSquared(vecToBox<D, Precision>(coords, box))
+										: std::numeric_limits<Precision>::infinity();
 								});
 				auto it = std::min_element(begin(boxDistances), end(boxDistances));
 				auto partition = std::distance(boxDistances.begin(), it);
diff --git a/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h b/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
index bedcfc1..36050a3 100644
--- a/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
+++ b/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
@@ -22,6 +22,11 @@ namespace LoadBalancing
             result[partition] = result[partition] * ((Precision)(numPoints[partition] - 1)/numPoints[partition])
                               + samplePoints[i] * ((Precision)1/numPoints[partition]);
         }
+        // partitions without sample points attract no points
+        for(size_t i = 0; i < partitions; ++i) {
+            if(numPoints[i] == 0)
+                result[i].fill(std::numeric_limits<Precision>::infinity());
+        }
         return result;
     }
     
-- 
2.43.0


From dbba8ed7770347c37320d51e82e78508b83e935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:38 +0000
Subject: [PATCH 57/74] verification hook: small ranges of hash tables and
 simplices are split, too (PARDETRIA_VERIF)

---
 include/datastructures/LP_Set.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index b2e48c7..cdfaaef 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -189,6 +189,13 @@ namespace _detail {
         IT m_midpoint;
         std::size_t m_grainsize;
 
+#ifdef PARDETRIA_VERIF
+        // verification builds split small ranges, too
+        static constexpr std::size_t GRAINSIZE = 1;
+#else
+        static constexpr std::size_t GRAINSIZE = 1e3;
+#endif
+
     public:
 
         //! True if range is empty.
@@ -214,7 +221,7 @@ namespace _detail {
         }
 
         //! Init range with container and grainsize specified
-        range_type(Container &cont, const std::size_t &grainsize = 1e3) :
+        range_type(Container &cont, const std::size_t &grainsize = GRAINSIZE) :
                 m_container(cont),
                 m_begin(cont.begin()),
                 m_end(cont.end()),
-- 
2.43.0


From 390fee806d83e60173be0f7df709e6b5f8ea5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 58/74] fix: threads making the graph of the sample inserted
 into an unsynchronised map

---
 include/load_balancing/sample_partitioner/Sampler.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index dcdeaeb..243a5d8 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -267,11 +267,11 @@ namespace LoadBalancing
             std::vector<std::vector<std::pair<size_t, int>>> adjacencyList(idTranslation.size());
             for(auto simplex : simplices) {
                 for(auto pointId : simplex.vertices) {
-                    auto i = idTranslation[pointId];
                     if(dPoint<D, Precision>::isFinite(pointId)) {
+                        const auto i = idTranslation.at(pointId);
                         for(auto id : simplex.vertices){
-                            auto j = idTranslation[id];
-                            if(dPoint<D, Precision>::isFinite(id) && i != j) {
+                            if(dPoint<D, Precision>::isFinite(id) && id != pointId) {
+                                const auto j = idTranslation.at(id);
                                 const Precision distSquared =
                                         lenSquared(samplePoints[pointId].coords - samplePoints[id].coords);
                                 const Precision normalizedDistSquared = distSquared / maxDistSquared;
@@ -328,11 +328,12 @@ namespace LoadBalancing
                 for (auto it = r.begin(); it < r.end(); ++it) {
                     auto &simplex = *it;
                     for(auto pointId : simplex.vertices) {
-                        auto i = idTranslation[pointId];
                         if(dPoint<D, Precision>::isFinite(pointId)) {
+                            // other threads read the translation, too
+                            const auto i = idTranslation.at(pointId);
                             for(auto id : simplex.vertices){
-                                auto j = idTranslation[id];
-                                if(dPoint<D, Precision>::isFinite(id) && i != j) {
+                                if(dPoint<D, Precision>::isFinite(id) && id != pointId) {
+                                    const auto j = idTranslation.at(id);
                                     const Precision distSquared =
                                             lenSquared(samplePoints[pointId].coords - samplePoints[id].coords);
                                     const Precision normalizedDistSquared = distSquared / maxDistSquared;
-- 
2.43.0


From 90f77f00f3fcdd10433224ddacf6f1161becf50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 59/74] fix: concurrent threads growing hash tables drew hash
 functions from an unsynchronised generator

---
 include/datastructures/LP_Set.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index cdfaaef..c7c57b5 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -23,10 +23,16 @@
 #include <boost/serialization/access.hpp>
 #include <boost/serialization/array.hpp>
 
+namespace _detail {
+    // hash functions are drawn from a common generator, also by concurrent threads that grow a table
+    inline std::mutex hasherMutex;
+}
+
 template<typename T>
 struct Hasher {
 
     Hasher() {
+        std::lock_guard<std::mutex> lock(_detail::hasherMutex);
         std::uniform_int_distribution<T> dist(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
         while (a = dist(startGen), a % 2 == 0) { } // find odd value
     }
-- 
2.43.0


From 2b3958eeca77e192580b4f81ddf70e3e70cb6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:35 +0000
Subject: [PATCH 60/74] fix: simplices were marked by several threads without
 synchronisation

getEdge(), buildWhereUsed() and updateNeighbors() read and wrote the marks (and, where a simplex was
taken up twice, its neighbors) from several threads; merging invalidated ids that an iterator of the
preceding range was reading.
---
 include/Geometry.h                     | 14 +++++++++++++-
 include/LoadBalancedDCTriangulator.tpp | 21 ++++++++-------------
 src/lib/DCTriangulator.cpp             | 21 ++++++++-------------
 3 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 834a5f2..5a69852 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -665,6 +665,18 @@ public:
         return vFingerprint;
     }
 
+    // raises the mark to m; of several threads doing so, exactly one gets true
+    bool raiseMark(const tMarkType m) const {
+        tMarkType curr = __atomic_load_n(&mark, __ATOMIC_RELAXED);
+
+        while (curr < m) {
+            if (__atomic_compare_exchange_n(&mark, &curr, m, true, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
+                return true;
+        }
+
+        return false;
+    }
+
     inline tHashType fingerprint() const {
         PROFILER_INC("dSimplex_fingerprint");
         return vFingerprint;
@@ -972,7 +984,7 @@ private:
 
 private:
     bool _valid(const dSimplex<D, Precision> &a) const {
-        return dSimplex<D, Precision>::isFinite(a.id);
+        return dSimplex<D, Precision>::isFinite(__atomic_load_n(&a.id, __ATOMIC_RELAXED));
     }
 
 public:
diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index b659953..dc8df9d 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -192,10 +192,9 @@ namespace LoadBalancing
             const auto &simplex = simplicesHandle[id];
 
 
-            if (simplex.mark == doneMark) {
+            if (!simplex.raiseMark(doneMark)) {
                 return; //already checked
             }
-            simplex.mark = doneMark;
 
             const auto cs = simplex.circumsphere(this->points);
             bool intersectsBounds = false;
@@ -215,9 +214,8 @@ namespace LoadBalancing
                 }
 
                 for (const auto &n : simplex.neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark < queuedMark) {
+                    if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].raiseMark(queuedMark)) {
                         // n was not yet inspected
-                        simplicesHandle[n].mark = queuedMark;
                         feeder.add(n);
                     }
                 }
@@ -259,16 +257,14 @@ namespace LoadBalancing
             for (const auto &edgeSimplexID : range) {
                 const auto &edgeSimplex = simplicesHandle[edgeSimplexID];
 
-                if (edgeSimplex.mark == doneMark) {
+                if (!edgeSimplex.raiseMark(doneMark)) {
                     continue; //already checked
                 }
-                edgeSimplex.mark = doneMark;
 
                 for (const auto &firstLayer : edgeSimplex.neighbors) {
                     if (dSimplex<D, Precision>::isFinite(firstLayer) && !edgeSimplices.count(firstLayer)) {
                         // we have an "inward" neighbor, add it to the wuFaces DS
-                        if (simplicesHandle[firstLayer].mark < queuedMark) {
-                            simplicesHandle[firstLayer].mark = queuedMark;
+                        if (simplicesHandle[firstLayer].raiseMark(queuedMark)) {
 
                             for (uint i = 0; i < D + 1; ++i) {
                                 auto facetteHash = simplicesHandle[firstLayer].faceFingerprint(i);
@@ -332,10 +328,9 @@ namespace LoadBalancing
 
             dSimplex<D, Precision> &simplex = simplicesHandle[id];
 
-            if (simplex.mark == doneMark) {
+            if (!simplex.raiseMark(doneMark)) {
                 return; //already checked
             }
-            simplex.mark = doneMark;
 
             PLOG("Checking neighbors of " << simplex << std::endl);
     #ifndef NDEBUG
@@ -377,8 +372,7 @@ namespace LoadBalancing
                             ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
 
                             simplex.neighbors[d] = cand;
-                            if(simplicesHandle[cand].mark < queuedMark) {
-                                simplicesHandle[cand].mark = queuedMark;
+                            if (simplicesHandle[cand].raiseMark(queuedMark)) {
                                 feeder.add(cand);
                             }
     #ifndef NDEBUG
@@ -503,7 +497,8 @@ namespace LoadBalancing
                         wuFacesHandle.insert((edgeSimplex.faceFingerprint(d)), edgeSimplex.id);
                     }
                 } else {
-                    edgeSimplex.id = dSimplex<D, Precision>::cINF;
+                    // an iterator of the preceding range may look at this simplex
+                    __atomic_store_n(&edgeSimplex.id, dSimplex<D, Precision>::cINF, __ATOMIC_RELAXED);
                 }
             }
         });
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 9bd87ce..f364537 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -144,10 +144,9 @@ void DCTriangulator<D, Precision>::getEdge(const dSimplices<D, Precision> &simpl
         const auto &simplex = simplicesHandle[id];
 
 
-        if (simplex.mark == doneMark) {
+        if (!simplex.raiseMark(doneMark)) {
             return; //already checked
         }
-        simplex.mark = doneMark;
 
         const auto cs = simplex.circumsphere(this->points);
         bool intersectsBounds = false;
@@ -167,9 +166,8 @@ void DCTriangulator<D, Precision>::getEdge(const dSimplices<D, Precision> &simpl
             }
 
             for (const auto &n : simplex.neighbors) {
-                if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark < queuedMark) {
+                if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].raiseMark(queuedMark)) {
                     // n was not yet inspected
-                    simplicesHandle[n].mark = queuedMark;
                     feeder.add(n);
                 }
             }
@@ -211,16 +209,14 @@ cWuFaces DCTriangulator<D, Precision>::buildWhereUsed(const dSimplices<D, Precis
         for (const auto &edgeSimplexID : range) {
             const auto &edgeSimplex = simplicesHandle[edgeSimplexID];
 
-            if (edgeSimplex.mark == doneMark) {
+            if (!edgeSimplex.raiseMark(doneMark)) {
                 continue; //already checked
             }
-            edgeSimplex.mark = doneMark;
 
             for (const auto &firstLayer : edgeSimplex.neighbors) {
                 if (dSimplex<D, Precision>::isFinite(firstLayer) && !edgeSimplices.count(firstLayer)) {
                     // we have an "inward" neighbor, add it to the wuFaces DS
-                    if (simplicesHandle[firstLayer].mark < queuedMark) {
-                        simplicesHandle[firstLayer].mark = queuedMark;
+                    if (simplicesHandle[firstLayer].raiseMark(queuedMark)) {
 
                         for (uint i = 0; i < D + 1; ++i) {
                             auto facetteHash = simplicesHandle[firstLayer].faceFingerprint(i);
@@ -284,10 +280,9 @@ void DCTriangulator<D, Precision>::updateNeighbors(
 
         dSimplex<D, Precision> &simplex = simplicesHandle[id];
 
-        if (simplex.mark == doneMark) {
+        if (!simplex.raiseMark(doneMark)) {
             return; //already checked
         }
-        simplex.mark = doneMark;
 
         PLOG("Checking neighbors of " << simplex << std::endl);
 #ifndef NDEBUG
@@ -329,8 +324,7 @@ void DCTriangulator<D, Precision>::updateNeighbors(
                         ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
 
                         simplex.neighbors[d] = cand;
-                        if(simplicesHandle[cand].mark < queuedMark) {
-                            simplicesHandle[cand].mark = queuedMark;
+                        if (simplicesHandle[cand].raiseMark(queuedMark)) {
                             feeder.add(cand);
                         }
 #ifndef NDEBUG
@@ -455,7 +449,8 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::mergeTriangulation(
                     wuFacesHandle.insert((edgeSimplex.faceFingerprint(d)), edgeSimplex.id);
                 }
             } else {
-                edgeSimplex.id = dSimplex<D, Precision>::cINF;
+                // an iterator of the preceding range may look at this simplex
+                __atomic_store_n(&edgeSimplex.id, dSimplex<D, Precision>::cINF, __ATOMIC_RELAXED);
             }
         }
     });
-- 
2.43.0


From 0b73e803e52dc5725390fbec0f1ed09330847de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:35 +0000
Subject: [PATCH 61/74] fix: marks of simplices overflowed for partition trees
 of more than 42 levels

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 5a69852..4d5f823 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -37,7 +37,7 @@
 
 typedef uint32_t tHashType;
 typedef uint64_t tIdType;
-typedef uint8_t tMarkType;
+typedef uint32_t tMarkType; // every level of a partition tree takes six marks
 
 typedef std::vector<tIdType> Id_Vector;
 typedef tbb::concurrent_vector<tIdType> Concurrent_Id_Vector;
-- 
2.43.0


From d380a92494c093cbc9697738d542aa2cfd362766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:44 +0000
Subject: [PATCH 62/74] fix: experiment asked a moved-from partitioner for its
 name and handed out an accumulator not yet constructed

---
 include/load_balancing/Experiment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 187c71a..4c062e1 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -34,8 +34,8 @@ namespace LoadBalancing
         Setup setup;
         std::ostream& out;
         std::string partitionerName;
+        ComprehensiveAccumulator acc; // written to by the monitor of the triangulator
         DCTriangulator<D, Precision, ComprehensiveMonitor> triangulator;
-        ComprehensiveAccumulator acc;
         size_t runs;
         
         void start();
@@ -49,7 +49,7 @@ namespace LoadBalancing
         : setup(std::move(setup)),
           out(out),
           partitionerName(partitioner->info()),
-          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitioner->info().find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
+          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitionerName.find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
           //triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, false, true, ComprehensiveMonitor(acc)),
           runs(0) {
         start();
-- 
2.43.0


From 4e82bb36d467d6fcf0edff16397b30527ffe4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:44 +0000
Subject: [PATCH 63/74] fix: experiment counted the reserved slot as a point

---
 include/load_balancing/Experiment.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 4c062e1..af29586 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -121,7 +121,8 @@ namespace LoadBalancing
             << "    \"triangulator\": \"" << "load balanced DC Triangulator\",\n"
             << "    \"partitioner\": \"" << partitionerName << "\",\n"
             << "    \"distribution\": \"" << setup.distribution << "\",\n"
-            << "    \"numpoints\": " << setup.points.finite_size() << ",\n"
+            // the first slot is reserved
+            << "    \"numpoints\": " << setup.points.finite_size() - (setup.points.finite_size() > 0) << ",\n"
             << "    \"threads\": " << setup.threads << ",\n"
             << "    \"seed\": " << setup.seed << ",\n"
             << "    \"results\": [";
-- 
2.43.0


From b8787cf938ea55baacf38c445468f9b712364087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:24 +0000
Subject: [PATCH 64/74] fix: experiment reported the figures of earlier runs
 again

---
 include/load_balancing/Experiment.h                    | 1 +
 include/load_balancing/monitors/ComprehensiveMonitor.h | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index af29586..5e8a424 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -62,6 +62,7 @@ namespace LoadBalancing
     
     template<uint D, typename Precision>
     bool Experiment<D, Precision>::runOnce() {
+        acc.clear();
         auto dt = triangulator.triangulate();
         bool result = true;
             
diff --git a/include/load_balancing/monitors/ComprehensiveMonitor.h b/include/load_balancing/monitors/ComprehensiveMonitor.h
index 6437573..295b942 100644
--- a/include/load_balancing/monitors/ComprehensiveMonitor.h
+++ b/include/load_balancing/monitors/ComprehensiveMonitor.h
@@ -15,6 +15,13 @@ namespace LoadBalancing
 		size_t sampleSize = 0;
 		
 		std::mutex mutex;
+
+		void clear() {
+			numTriangulatedPoints = 0;
+			partitionSizes.clear();
+			baseTriangulations.clear();
+			sampleSize = 0;
+		}
     };
     
     struct ComprehensiveMonitor : public TimingMonitor
-- 
2.43.0


From 73354e7c8975e6dfe935e782391448140fe2d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:38 +0000
Subject: [PATCH 65/74] fix: number of simplices counted the slots of removed
 simplices and unused ones

---
 include/Geometry.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/Geometry.h b/include/Geometry.h
index 4d5f823..ba7908f 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -947,6 +947,15 @@ public:
     typedef _detail::range_type<dSimplices<D, Precision>, iterator> range_type;
     typedef _detail::range_type<const dSimplices<D, Precision>, const_iterator> const_range_type;
 
+    /* number of simplices, slots that hold none are not counted */
+    tIdType exact_size() const {
+        tIdType size = 0;
+        for (auto it = begin(); it != end(); ++it)
+            ++size;
+
+        return size;
+    }
+
     const_iterator begin() const {
         return const_iterator(*this, 0, this->lowerBound(), true);
     }
-- 
2.43.0


From 08b01e6166c5efe2024de4158153461e54aa82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:59 +0000
Subject: [PATCH 66/74] fix: command line options naming nothing are refused
 instead of dereferencing null

---
 include/load_balancing/CommandLineInterface.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/CommandLineInterface.h b/include/load_balancing/CommandLineInterface.h
index 49f583e..5ead170 100644
--- a/include/load_balancing/CommandLineInterface.h
+++ b/include/load_balancing/CommandLineInterface.h
@@ -62,6 +62,8 @@ std::unique_ptr<PointGenerator<D, Precision>> createGenerator(const po::variable
     } else if("malicious-bubble" == distributionName){
         uint numBubbles = extract<uint>("num-bubbles", vm, std::pow(4, D));
         result = std::make_unique<lb::MaliciousBubbleGenerator<D, Precision>>(numBubbles);
+    } else {
+        throw std::runtime_error("unknown option for argument 'distribution'");
     }
     
     return result;
@@ -136,6 +138,8 @@ std::unique_ptr<lb::Partitioner<D, Precision, MonitorT>> createPartitioner(const
 			weight = [](Precision d) -> Precision { return 1.0 - d; };
 		} else if("log" == vm["edge-weights"].as<std::string>()) {
 			weight = [](Precision d) -> Precision { return -std::log(d + 0.0000001); };
+		} else {
+			throw std::runtime_error("unknown option for argument 'edge-weights'");
 		}
 	}
 	
@@ -190,9 +194,13 @@ std::unique_ptr<lb::Partitioner<D, Precision, MonitorT>> createPartitioner(const
             oldPartitioner = std::make_unique<ExtendPartitioner<D, Precision>>();
         } else if("one-dim" == partitionerName) {
             uint d = vm["split-dimension"].as<uint>();
-            ASSERT(d < D);
+            if(d >= D) {
+                throw std::runtime_error("argument 'split-dimension' exceeds the dimension");
+            }
             oldPartitioner = std::make_unique<OneDimPartitioner<D, Precision>>(d);
-		}
+		} else {
+            throw std::runtime_error("unknown option for argument 'partitioner'");
+        }
         auto maxRecursions = oldPartitioner->getRecursionDepth(threads);
         partitioner =
 	        std::make_unique<LoadBalancing::OldPartitionerPartitioner<D, Precision, MonitorT>>(
-- 
2.43.0


From 2efd32a508b8b2b3d1e958c2528a581b449caf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:46 +0000
Subject: [PATCH 67/74] fix: LBExperiments set the log level before reading it
 from the command line

---
 src/exe/LB_Experiments.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exe/LB_Experiments.cpp b/src/exe/LB_Experiments.cpp
index 7b77bc9..090be41 100644
--- a/src/exe/LB_Experiments.cpp
+++ b/src/exe/LB_Experiments.cpp
@@ -66,12 +66,13 @@ int main(int argc, char *argv[]) {
                                "load points from file");
     cCommandLine.add_options()("verbosity", po::value<int>(&verbosity),
                                "verbosity");
-    LOGGER.setLogLevel(static_cast<Logger::Verbosity>(verbosity));
 
     po::variables_map vm;
     po::store(po::parse_command_line(argc, argv, cCommandLine), vm);
     po::notify(vm);
 
+    LOGGER.setLogLevel(static_cast<Logger::Verbosity>(verbosity));
+
     if (vm.count("help")) {
         std::cout << cCommandLine << std::endl;
         return EXIT_SUCCESS;
-- 
2.43.0


From c48ee9eb3b7a9103a144c81e6f73ef3a3eb8af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 68/74] fix: LBExperiments read an uninitialised dimension and
 succeeded without one

---
 src/exe/LB_Experiments.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exe/LB_Experiments.cpp b/src/exe/LB_Experiments.cpp
index 090be41..bf5507c 100644
--- a/src/exe/LB_Experiments.cpp
+++ b/src/exe/LB_Experiments.cpp
@@ -56,7 +56,7 @@ int main(int argc, char *argv[]) {
     uint threads = tbb::task_scheduler_init::default_num_threads();
     std::string pointFile;
     std::string partitionerName;
-    uint dim;
+    uint dim = 0;
     int verbosity = (short)Logger::Verbosity::NORMAL;
 
     auto cCommandLine = defaultOptions<double>();
@@ -113,6 +113,7 @@ int main(int argc, char *argv[]) {
         break;
     default:
         std::cerr << "unsupported dimension\n";
+        return EXIT_FAILURE;
     }
     
     return EXIT_SUCCESS;
-- 
2.43.0


From ac022e5e17cb02952e18ad63e97dd7d5985ee6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:35 +0000
Subject: [PATCH 69/74] fix: LBPointDump printed the reserved first slot as a
 point

---
 src/exe/LB_PointDump.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exe/LB_PointDump.cpp b/src/exe/LB_PointDump.cpp
index aa40700..cf701dc 100644
--- a/src/exe/LB_PointDump.cpp
+++ b/src/exe/LB_PointDump.cpp
@@ -41,7 +41,9 @@ int main(int argc, char** argv) {
     auto N = vm["n"].as<tIdType>();
     points = pg->generate(N, bounds, startGen);
     
-    for(const auto& point : points) {
+    // the first slot is reserved
+    for(tIdType i = 1; i <= N; ++i) {
+        const auto& point = points[i];
         printf("%f %f %f\n", point.coords[0], point.coords[1], point.coords[2]);
     }
 }
-- 
2.43.0


From a69bbd47b16368ab15f25417f22d862c034a5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:55 +0000
Subject: [PATCH 70/74] fix: Benchmark: do not loop forever on bounds of zero
 or near the largest number, report an unreadable file of runs

---
 src/exe/Benchmark.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/exe/Benchmark.cpp b/src/exe/Benchmark.cpp
index c3ebdde..0cbf8e4 100644
--- a/src/exe/Benchmark.cpp
+++ b/src/exe/Benchmark.cpp
@@ -151,7 +151,7 @@ std::vector<ExperimentRun> generateExperimentRuns(const uint maxN, const uint mi
 
         //create ExperimentRuns
         //loop over number of points
-        for (uint nPoints = minN; nPoints <= maxN; nPoints += pow(10, floor(log10(nPoints)))) {
+        for (unsigned long nPoints = minN; nPoints <= maxN; nPoints += pow(10, floor(log10(nPoints)))) {
 
             //loop over triangulators
             for (const unsigned char alg : triangulators) {
@@ -335,6 +335,11 @@ int main(int argc, char *argv[]) {
     if (vm.count("runs")) {
         std::ifstream input(runFile);
 
+        if (!input) {
+            std::cout << "Could not read " << runFile << std::endl;
+            return EXIT_FAILURE;
+        }
+
         for (std::string line; getline(input, line);) {
             runs.emplace_back(line);
         }
@@ -348,6 +353,11 @@ int main(int argc, char *argv[]) {
             return EXIT_FAILURE;
         }
 
+        if (minN == 0 || minThreads == 0 || minThreads < -1 || maxThreads < -1) {
+            std::cout << "Please specify valid minimum and maximum numbers of points and threads" << std::endl;
+            return EXIT_FAILURE;
+        }
+
         if (vm.count("occupancy")) {
             occupancies = {occupancy};
         }
-- 
2.43.0


From cb8ca610a72bfde435a40e5e3c9418745fffd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:26 +0000
Subject: [PATCH 71/74] fix: load balanced triangulator: rounding of the
 circumsphere must not hide that another partition's points lie on it

---
 include/LoadBalancedDCTriangulator.tpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index dc8df9d..316bef1 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -196,7 +196,13 @@ namespace LoadBalancing
                 return; //already checked
             }
 
-            const auto cs = simplex.circumsphere(this->points);
+            auto cs = simplex.circumsphere(this->points);
+            // rounding must not hide that points of another partition lie on the sphere
+            Precision magnitude = cs.radius;
+            for (uint d = 0; d < D; ++d)
+                magnitude += std::abs(cs.center[d]);
+            cs.radius += 64 * std::numeric_limits<Precision>::epsilon() * magnitude;
+
             bool intersectsBounds = false;
             for (uint i = 0; i < partitioning.size() && !intersectsBounds; ++i) {
                 if (i != partition && intersectionCheckers[i]->intersects(cs, simplex))
-- 
2.43.0


From 9aa1bb0a3c6d531c87e667913fb282a30bd228d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:03 +0000
Subject: [PATCH 72/74] fix: triangulators: the auxiliary points enclose points
 that agree in a coordinate, too

---
 include/LoadBalancedDCTriangulator.tpp | 10 +++++++++-
 src/lib/DCTriangulator.cpp             | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 316bef1..8c8e42e 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -79,6 +79,13 @@ namespace LoadBalancing
         if (addInfinitePoints) {
             // add infinite points to data set
             auto stats = getPointStats(this->points, this->points);
+            // points that agree in a dimension need to be enclosed, too
+            Precision maxExtent = 0;
+            for (uint d = 0; d < D; ++d)
+                maxExtent = std::max(maxExtent, stats.max[d] - stats.min[d]);
+            if (!(maxExtent > 0))
+                maxExtent = 1;
+
             for (uint i = 0; i < pow(2, D); ++i) {
                 VLOG("Point stats: " << stats.min << " - " << stats.mid << " - "
                     << stats.max << std::endl);
@@ -89,7 +96,8 @@ namespace LoadBalancing
 
                 for (uint d = 0; d < D; ++d)
                     p.coords[d] +=
-                            (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
+                            (i & (1 << d) ? 1 : -1) * 2 * SAFETY *
+                            (stats.max[d] > stats.min[d] ? stats.max[d] - stats.min[d] : maxExtent);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
             }
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index f364537..42d2edb 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -69,6 +69,13 @@ DCTriangulator<D, Precision>::DCTriangulator(
     if (addInfiniteVertices) {
         // add infinite points to data set
         auto stats = getPointStats(this->points, this->points);
+        // points that agree in a dimension need to be enclosed, too
+        Precision maxExtent = 0;
+        for (uint d = 0; d < D; ++d)
+            maxExtent = std::max(maxExtent, stats.max[d] - stats.min[d]);
+        if (!(maxExtent > 0))
+            maxExtent = 1;
+
         for (uint i = 0; i < pow(2, D); ++i) {
             VLOG("Point stats: " << stats.min << " - " << stats.mid << " - "
                  << stats.max << std::endl);
@@ -79,7 +86,8 @@ DCTriangulator<D, Precision>::DCTriangulator(
 
             for (uint d = 0; d < D; ++d)
                 p.coords[d] +=
-                        (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
+                        (i & (1 << d) ? 1 : -1) * 2 * SAFETY *
+                        (stats.max[d] > stats.min[d] ? stats.max[d] - stats.min[d] : maxExtent);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
         }
-- 
2.43.0


From f124d1cc0a5c171f60ace8b8f00c2f7b41e7ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:32 +0000
Subject: [PATCH 73/74] fix: UnboundBubbleGenerator: rounding carried points on
 the border out of the bounds

---
 include/load_balancing/UnboundBubbleGenerator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index a51e9ea..fdab09a 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -61,7 +61,12 @@ protected:
                 return pointDist(gen);
             });
             
-            points[i + 1] = bubbleCenters[centerIndex] + coords;
+            coords = bubbleCenters[centerIndex] + coords;
+            // rounding may carry a point out of the bounds
+            for(uint d = 0; d < D; ++d)
+                coords[d] = std::min(std::max(coords[d], bounds.low[d]), bounds.high[d]);
+
+            points[i + 1] = coords;
         }
     }
 };
-- 
2.43.0


From 9fb9ffffceb7e67f76878c26363fc597e74b6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:26 +0000
Subject: [PATCH 74/74] fix: concurrent hash tables: threads that fill up a
 small table at once never ended, nor did lookups in it

---
 include/datastructures/LP_Map.hxx      | 10 ++++++++--
 include/datastructures/LP_MultiMap.hxx |  6 ++++--
 include/datastructures/LP_Set.hxx      |  6 +++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 748f3cb..1fcf3ee 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -305,7 +305,9 @@ public:
         if (m_items.load() >= m_arraySize >> 1)
             return InsertReturn::State::Full;
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        // several threads may fill up a small table, look at every entry once at most
+        for (std::size_t n = 0; n < m_arraySize; ++n, idx++) {
             idx &= m_arraySize - 1;
             ASSERT(idx < m_arraySize);
 
@@ -335,6 +337,8 @@ public:
                     continue; // another thread inserted a different key in this position
             }
         }
+
+        return InsertReturn::State::Full;
     }
 
     InsertReturn insert(const std::pair<K, V> &pair) {
@@ -343,7 +347,8 @@ public:
 
     V get(const K &key) const {
         ASSERT(key != 0);
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        for (std::size_t n = 0; n < m_arraySize; ++n, idx++) {
             idx &= m_arraySize - 1;
             K probedKey = m_keys[idx].load();
             if (probedKey == key)
@@ -352,6 +357,7 @@ public:
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index a70572b..97b611c 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -404,8 +404,11 @@ public:
         ASSERT(key != 0);
 
 
-        if (m_items.load() >= m_arraySize >> 1)
+        // claim the room first, as otherwise several threads could fill up a small table and then probe forever
+        if (m_items.fetch_add(1) >= m_arraySize >> 1) {
+            --m_items;
             return InsertReturn::State::Full;
+        }
 
         std::size_t cols = 0; //count number of steps
         for (K idx = m_hasher(key); ; idx++) {
@@ -429,7 +432,6 @@ public:
             bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
             if (cas) {
                 m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                ++m_items;
                 return true; // we just added the key to the set
             } else {
                 cols += prevKey != key;
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c7c57b5..2ef5de6 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -594,7 +594,9 @@ public:
             return InsertReturn::State::Full;
 
         K cols = 0;
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        // other threads may fill up the table meanwhile, look at every entry once at most
+        for (std::size_t n = 0; n < m_arraySize; ++n, idx++) {
 
             if (Growing && cols > c_growThreshold) {
                 return InsertReturn::State::Full;
@@ -631,6 +633,8 @@ public:
                 }
             }
         }
+
+        return InsertReturn::State::Full;
     }
 
     K get(const K &key) const {
-- 
2.43.0

