From 5888c9276e1ee95cb9040ae8110d45ceeb2da268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 01/12] fix: bit_vector::enumerator::take(64) left the taken
 word in the buffer

A following skip_zeros() read the stale buffer instead of the next word.
---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..cb98b2b 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -383,6 +383,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0;
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From 196aeb2b16d7c5846f4781a872e5b49b89d10a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 02/12] fix: unary_enumerator::skip0 counted a one consumed by
 next() as a zero

---
 bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index cb98b2b..5dd82ed 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -503,7 +503,7 @@ namespace succinct {
             {
                 uint64_t skipped = 0;
                 uint64_t pos_in_word = m_position % 64;
-                uint64_t buf = ~m_buf & (uint64_t(-1) << pos_in_word);
+                uint64_t buf = ~m_data[m_position / 64] & (uint64_t(-1) << pos_in_word);
                 uint64_t w = 0;
                 while (skipped + (w = broadword::popcount(buf)) <= k) {
                     skipped += w;
-- 
2.43.0


From 5e6a5997eec8318b4522f95454e370bb482faeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 03/12] fix: bit_vector_builder::reserve left m_cur_word
 pointing to freed storage

---
 bit_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 5dd82ed..70f4ab0 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,9 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (!m_bits.empty()) {
+                m_cur_word = &m_bits.back(); // storage may have moved
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From e56280e0806494e112fe6fe891cf697cd19c4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 04/12] fix: fast_getline duplicated a last line without
 newline

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..c2ffcdb 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break;
                 }
             }
             line += buffer;
-- 
2.43.0


From 29b962900febfb351436b8553e6768d19e065525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 05/12] fix: line_iterator yielded a spurious empty line before
 the first one

---
 util.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c2ffcdb..29b4577 100644
--- a/util.hpp
+++ b/util.hpp
@@ -62,7 +62,11 @@ namespace succinct { namespace util {
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            if (m_file) {
+                increment();
+            }
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From 06a928265ac5f425ceb17b4c82c18152df1bf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 06/12] fix: int2nat/nat2int overflowed at the most negative
 integer

---
 util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index 29b4577..ad3bd93 100644
--- a/util.hpp
+++ b/util.hpp
@@ -251,16 +251,16 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return 2 * uint64_t(-(x + 1)) + 1;
         } else {
-            return uint64_t(2 * x);
+            return 2 * uint64_t(x);
         }
     }
 
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From 4895f4de21b3d4640c04d503639ccd5c76eb54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 07/12] fix: uleq_step_8 was wrong for lanes whose high bits
 differ

---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From 4ae86ea799c476d194aa0e9a83cfd43f3aa12e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:39 +0000
Subject: [PATCH 08/12] fix: mmap_lines threw on an empty file instead of
 yielding no lines

---
 util.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index ad3bd93..010e100 100644
--- a/util.hpp
+++ b/util.hpp
@@ -218,12 +218,18 @@ namespace succinct { namespace util {
         typedef buffer_line_iterator const_iterator;
 
         mmap_lines(std::string filename)
-            : m_map(filename)
-        {}
+        {
+            // an empty file cannot be mapped: it has no lines
+            std::ifstream probe(filename.c_str());
+            probe.peek();
+            if (!probe.eof()) {
+                m_map.open(filename);
+            }
+        }
 
         const_iterator begin() const
         {
-            return const_iterator(m_map.data(), m_map.size());
+            return m_map.is_open() ? const_iterator(m_map.data(), m_map.size()) : end();
         }
 
         const_iterator end() const
-- 
2.43.0


From e628191d14d5bbc7bc701bb34e2d53faac9777dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:36 +0000
Subject: [PATCH 09/12] fix: gamma and compressed lists wrapped the largest
 value of a narrower input type

The lists store x + 1 (x + 2); the addition was made in the element type of the
input range, so e.g. 2^32-1 in a range of uint32_t became 0 and corrupted the list.
---
 elias_fano_compressed_list.hpp | 4 ++--
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 51d1848..3067baf 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -20,7 +20,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                s += broadword::msb(*iter + 1);
+                s += broadword::msb(value_type(*iter) + 1);
                 n += 1;
             }
 
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                size_t val = *iter + 1;
+                size_t val = value_type(*iter) + 1;
                 size_t l = broadword::msb(val);
                 bits_builder.append_bits(val ^ (uint64_t(1) << l), l);
                 ef_builder.push_back(bits_builder.size());
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 89d5fb6..037beff 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(vals);
                  iter != boost::end(vals);
                  ++iter) {
-                const uint64_t val = *iter + 2; // increment the second bit
+                const uint64_t val = uint64_t(*iter) + 2; // increment the second bit
 
                 uint8_t l = broadword::msb(val);
 
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 9da8114..8a460f1 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -26,7 +26,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                const value_type val = *iter + 1;
+                const value_type val = value_type(*iter) + 1;
 
                 uint8_t l = broadword::msb(val);
 
-- 
2.43.0


From 35212ec829aa096c1276970e84a0d7c0cdf046e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:21 +0000
Subject: [PATCH 10/12] fix: empty elias_fano and bp_vector left fields
 uninitialised

m_l (default-constructed) and m_internal_nodes (default-constructed or built from
an empty range) are part of the frozen image, so freezing an empty structure
wrote indeterminate bytes.
---
 bp_vector.hpp  | 2 ++
 elias_fano.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..6c0ef69 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From 93821712921e85920f379636a846b63d9525c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:22 +0000
Subject: [PATCH 11/12] fix: bp_vector's min tree truncated size() for 2^31
 parentheses and more

The past-the-end marker of the min tree was size() converted to the
32-bit excess_t.  For sizes of 2^31 and more it became negative or
small, so that the minima of superblocks were wrong: find_close,
find_open, enclose and excess_rmq returned wrong answers or read out
of bounds.  Only the depth is limited to 2^31, not the size.
---
 bp_vector.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..e60d676 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -72,6 +72,11 @@ namespace succinct {
 
         const static excess_tables tables;
 
+        // larger than any excess; size() would not do, because it does
+        // not fit in excess_t for 2^31 parentheses and more
+        const bp_vector::excess_t past_the_end_excess =
+            std::numeric_limits<bp_vector::excess_t>::max();
+
         inline bool find_close_in_word(uint64_t word, uint64_t byte_counts, bp_vector::excess_t cur_exc, uint64_t& ret)
         {
             assert(cur_exc > 0 && cur_exc <= 64);
@@ -305,7 +310,7 @@ namespace succinct {
     }
 
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != excess_t(size()));
+        assert(m_superblock_excess_min[node] != past_the_end_excess);
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -489,7 +494,7 @@ namespace succinct {
             cur_node = node_min_idx;
             while (cur_node < m_internal_nodes) {
                 cur_node *= 2;
-                // remember that past-the-end nodes are filled with size()
+                // remember that past-the-end nodes are filled with past_the_end_excess
                 if (m_superblock_excess_min[cur_node + 1] <
                     m_superblock_excess_min[cur_node]) {
                     cur_node += 1;
@@ -677,7 +682,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = static_cast<excess_t>(size());
+            excess_t cur_super_min = past_the_end_excess;
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -685,7 +690,7 @@ namespace succinct {
                  ++block) {
                 cur_super_min = std::min(cur_super_min, superblock_excess + block_excess_min[block]);
             }
-            assert(cur_super_min >= 0 && cur_super_min < excess_t(size()));
+            assert(cur_super_min >= 0 && uint64_t(cur_super_min) < size());
 
             superblock_excess_min[m_internal_nodes + superblock] = cur_super_min;
         }
@@ -693,7 +698,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = static_cast<excess_t>(size());
+            superblock_excess_min[node] = past_the_end_excess;
         }
 
         // Fill bottom-up the other layers: each node updates the parent
-- 
2.43.0


From a41fa3afa5cde48c45e5680ce133759c4d77ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:24 +0000
Subject: [PATCH 12/12] fix: bp_vector's min tree past-the-end marker is again
 size() where it fits

The marker introduced for 2^31 parentheses and more also changed the
frozen image of every smaller bp_vector (the unused node of the min
tree).  Use size() as long as it fits in excess_t.
---
 bp_vector.cpp | 19 ++++++++++---------
 bp_vector.hpp |  1 +
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index e60d676..5f48b03 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -72,11 +72,6 @@ namespace succinct {
 
         const static excess_tables tables;
 
-        // larger than any excess; size() would not do, because it does
-        // not fit in excess_t for 2^31 parentheses and more
-        const bp_vector::excess_t past_the_end_excess =
-            std::numeric_limits<bp_vector::excess_t>::max();
-
         inline bool find_close_in_word(uint64_t word, uint64_t byte_counts, bp_vector::excess_t cur_exc, uint64_t& ret)
         {
             assert(cur_exc > 0 && cur_exc <= 64);
@@ -309,8 +304,14 @@ namespace succinct {
         return excess;
     }
 
+    // larger than any excess: size(), as long as it fits in excess_t
+    inline bp_vector::excess_t bp_vector::past_the_end_excess() const {
+        uint64_t max_excess = uint64_t(std::numeric_limits<excess_t>::max());
+        return excess_t(std::min(size(), max_excess));
+    }
+
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != past_the_end_excess);
+        assert(m_superblock_excess_min[node] != past_the_end_excess());
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -494,7 +495,7 @@ namespace succinct {
             cur_node = node_min_idx;
             while (cur_node < m_internal_nodes) {
                 cur_node *= 2;
-                // remember that past-the-end nodes are filled with past_the_end_excess
+                // remember that past-the-end nodes are filled with past_the_end_excess()
                 if (m_superblock_excess_min[cur_node + 1] <
                     m_superblock_excess_min[cur_node]) {
                     cur_node += 1;
@@ -682,7 +683,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = past_the_end_excess;
+            excess_t cur_super_min = past_the_end_excess();
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -698,7 +699,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = past_the_end_excess;
+            superblock_excess_min[node] = past_the_end_excess();
         }
 
         // Fill bottom-up the other layers: each node updates the parent
diff --git a/bp_vector.hpp b/bp_vector.hpp
index 9a76ff6..ffb5cd8 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -86,6 +86,7 @@ namespace succinct {
 
 
         inline excess_t get_block_excess(uint64_t block) const;
+        inline excess_t past_the_end_excess() const;
         inline bool in_node_range(uint64_t node, excess_t excess) const;
 
         template <int direction>
-- 
2.43.0

