From 05cfd6fca1156f68e3451946ad89e7db22f8f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 01/91] fix: bits::cnt32 overflowed its 4-bit sums

The partial sums were accumulated in nibbles, so words with 16 or more
set bits in the even nibbles lost a multiple of 16 (cnt32(0xFFFFFFFF)
was not 32). Sum bytes instead.
---
 include/sdsl/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/bits.hpp b/include/sdsl/bits.hpp
index 1c45774..a3896ae 100644
--- a/include/sdsl/bits.hpp
+++ b/include/sdsl/bits.hpp
@@ -268,7 +268,8 @@ inline uint32_t bits::cnt32(uint32_t x)
 {
     x = x-((x>>1) & 0x55555555);
     x = (x & 0x33333333) + ((x>>2) & 0x33333333);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x>>4)) & 0x0F0F0F0F;
+    return 0x01010101*x >> 24;
 }
 
 
-- 
2.43.0


From 99334ea32376fbacf7fec13ec844a76b9e374615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 02/91] fix: util::next_bit reported unused bits behind the end
 of the vector

Bits of the last word beyond bit_size() are unspecified (set_to_value,
flip and set_random_bits set them), so a position greater than
bit_size() could be returned instead of bit_size().
---
 include/sdsl/util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..f29108d 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -576,12 +576,13 @@ typename t_int_vec::size_type util::next_bit(const t_int_vec& v, uint64_t idx)
     uint64_t node = v.data()[pos];
     node >>= (idx&0x3F);
     if (node) {
-        return idx+bits::lo(node);
+        // bits stored behind the end of v do not count
+        return std::min<uint64_t>(idx+bits::lo(node), v.bit_size());
     } else {
         ++pos;
         while ((pos<<6) < v.bit_size()) {
             if (v.data()[pos]) {
-                return (pos<<6)|bits::lo(v.data()[pos]);
+                return std::min<uint64_t>((pos<<6)|bits::lo(v.data()[pos]), v.bit_size());
             }
             ++pos;
         }
-- 
2.43.0


From 074cbd27d906d9a400a48a069faa6c1c3f2826d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 03/91] fix: int_vector::operator== ignored the width

The documentation defines equality to include equal widths; vectors with
the same bits but different widths (and so different sizes and elements)
compared equal.
---
 include/sdsl/int_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..9d8de37 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1452,6 +1452,8 @@ bool int_vector<t_width>::operator==(const int_vector& v)const
         return false;
     if (bit_size() != v.bit_size())
         return false;
+    if (width() != v.width())
+        return false;
     if (empty())
         return true;
     const uint64_t* data1 = v.data();
-- 
2.43.0


From 4c3a4bfc9391c1c12ef929e054c4219a4420c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 04/91] fix: int_vector resize kept too small a buffer when
 only the padding word was missing

---
 include/sdsl/memory_management.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..a920024 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -345,14 +345,15 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            bool do_realloc = old_size_in_bytes != new_size_in_bytes;
+            size_t old_allocated_bytes = (size_t)(((v.m_size + 64) >> 6) << 3);
+            size_t allocated_bytes = (size_t)(((size + 64) >> 6) << 3);
+            bool do_realloc = old_allocated_bytes != allocated_bytes;
             v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
                 // We need this padding since rank data structures do a memory
                 // access to this padding to answer rank(size()) if size()%64 ==0.
                 // Note that this padding is not counted in the serialize method!
-                size_t allocated_bytes = (size_t)(((size + 64) >> 6) << 3);
                 v.m_data = memory_manager::realloc_mem(v.m_data, allocated_bytes);
                 if (allocated_bytes != 0 && v.m_data == nullptr) {
                     throw std::bad_alloc();
@@ -368,7 +369,7 @@ class memory_manager
                 }
 
                 // update stats
-                if (do_realloc) {
+                if (old_size_in_bytes != new_size_in_bytes) {
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
             }
-- 
2.43.0


From 867b5178ea1e49030fe7d0809dda603dc68e0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 05/91] fix: decoders of self-delimiting codes read behind the
 buffer of an int_vector

---
 include/sdsl/memory_management.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index a920024..0270196 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -345,15 +345,15 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            size_t old_allocated_bytes = (size_t)(((v.m_size + 64) >> 6) << 3);
-            size_t allocated_bytes = (size_t)(((size + 64) >> 6) << 3);
-            bool do_realloc = old_allocated_bytes != allocated_bytes;
+            bool do_realloc = old_size_in_bytes != new_size_in_bytes;
             v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
-                // Note that we allocate 8 additional bytes if m_size % 64 == 0.
+                // Note that we allocate 8 additional bytes.
                 // We need this padding since rank data structures do a memory
-                // access to this padding to answer rank(size()) if size()%64 ==0.
+                // access to this padding to answer rank(size()) if size()%64 ==0
+                // and decoders of self-delimiting codes peek at bits behind the end.
                 // Note that this padding is not counted in the serialize method!
+                size_t allocated_bytes = (size_t)(new_size_in_bytes + 8);
                 v.m_data = memory_manager::realloc_mem(v.m_data, allocated_bytes);
                 if (allocated_bytes != 0 && v.m_data == nullptr) {
                     throw std::bad_alloc();
@@ -364,12 +364,10 @@ class memory_manager
                     uint8_t in_word_offset = (uint8_t)(v.bit_size() & 0x3F);
                     bits::write_int(v.m_data + (v.bit_size() >> 6), 0, in_word_offset, len);
                 }
-                if (((v.m_size) % 64) == 0) {  // initialize unreachable bits with 0
-                    v.m_data[v.m_size / 64] = 0;
-                }
+                v.m_data[new_size_in_bytes >> 3] = 0;  // initialize unreachable bits with 0
 
                 // update stats
-                if (old_size_in_bytes != new_size_in_bytes) {
+                if (do_realloc) {
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
             }
-- 
2.43.0


From 3cddabf284b95ec11e199e46668356ea274fa3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 06/91] fix: comma coder of width 31 and 32 did not compile

---
 include/sdsl/coder_comma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/coder_comma.hpp b/include/sdsl/coder_comma.hpp
index d2c1a7c..994a888 100644
--- a/include/sdsl/coder_comma.hpp
+++ b/include/sdsl/coder_comma.hpp
@@ -66,7 +66,7 @@ class comma
         }
 
         //base in which numbers are coded
-        static const uint32_t base = (1 << t_width) - 1;
+        static const uint32_t base = (1ULL << t_width) - 1;
 
         //table needed for computation of encoding lengths.
         //table contains entries of the kind (index, base^index)
-- 
2.43.0


From 484ec718309bbf8f6e358246bc5c848460a405a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 07/91] fix: elias_gamma::decode_prefix_sum with end index lost
 values of 2^63 and above

---
 lib/coder_elias_gamma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 3e668a9..479de50 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -97,7 +97,7 @@ begin_decode:
 //				assert(w>0);
                 uint16_t len_1 = bits::lo(w); // read length of length
                 buffered -= (len_1+1);
-                w >>= (len_1+1);
+                w = len_1 < 63 ? w >> (len_1+1) : 0;
                 if (len_1 > buffered) {// buffer is not full
                     w |= (((*d)>>read)<<buffered);
                     if (read >= buffered) {
-- 
2.43.0


From ab3b3c68c2adc6497b844b4b9559e0afc4410a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 08/91] fix: vlc_vector with a fixed pointer width did not
 compile

---
 include/sdsl/vlc_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/vlc_vector.hpp b/include/sdsl/vlc_vector.hpp
index ce0f938..c5aefc9 100644
--- a/include/sdsl/vlc_vector.hpp
+++ b/include/sdsl/vlc_vector.hpp
@@ -203,7 +203,7 @@ vlc_vector<t_coder, t_dens, t_width>::vlc_vector(const Container& c)
     }
     samples = (c.size()+get_sample_dens()-1)/get_sample_dens();
 //    (2) Write z
-    m_sample_pointer = int_vector<>(samples+1, 0, bits::hi(z_size+1)+1);
+    m_sample_pointer = int_vector_type(samples+1, 0, bits::hi(z_size+1)+1);
 
     m_z.bit_resize(z_size);
     z_size = 0;
@@ -241,7 +241,7 @@ vlc_vector<t_coder, t_dens, t_width>::vlc_vector(int_vector_buffer<int_width>& v
     samples = (n+get_sample_dens()-1)/get_sample_dens();
 //    (2) Write z
 
-    m_sample_pointer = int_vector<>(samples+1, 0, bits::hi(z_size+1)+1);  // add 1 for last entry
+    m_sample_pointer = int_vector_type(samples+1, 0, bits::hi(z_size+1)+1);  // add 1 for last entry
 
 //     (b) Initilize bit_vector for encoded data
     m_z.bit_resize(z_size);
-- 
2.43.0


From ed7660f8bcb9a8f36f3104611b9a130a73c87e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 09/91] fix: default constructed dac_vector_dp had an undefined
 size

---
 include/sdsl/dac_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..732e53d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -354,7 +354,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;  // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
-- 
2.43.0


From e058da65c885b0628ea91454f29b372f1a03d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 10/91] fix: wt_int/wm_int handled values >= 2^63 wrongly and
 range_search_2d reported points outside the value range

The shifts by max_level are undefined for max_level=64, so that rank, lex_count,
lex_smaller_count, symbol_lte/gte and the construction failed for values with
the highest bit set. range_search_2d with vlb=2^max_level reported the points
with value 2^max_level-1.
---
 include/sdsl/wm_int.hpp       |  9 ++++-----
 include/sdsl/wt_algorithm.hpp |  4 ++--
 include/sdsl/wt_int.hpp       | 15 +++++++--------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..ffb413d 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -325,7 +325,7 @@ class wm_int
         size_type rank(size_type i, value_type c)const
         {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and (c>>m_max_level) > 0) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type b = 0; // start position of the interval
@@ -439,8 +439,8 @@ class wm_int
                         bool report=true) const
         {
 
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (m_max_level < 64 and (vrb>>m_max_level) > 0)
+                vrb = bits::lo_set[m_max_level];
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
@@ -487,8 +487,7 @@ class wm_int
             } else {
                 rank_off[v.level] = m_tree_rank(is[v.level]);
             }
-            size_type irb = ilb + (1ULL << (m_max_level-v.level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-v.level-1));
 
             auto c_v = expand(v);
             auto c_r = expand(v, r);
diff --git a/include/sdsl/wt_algorithm.hpp b/include/sdsl/wt_algorithm.hpp
index 2151169..70ea5d5 100644
--- a/include/sdsl/wt_algorithm.hpp
+++ b/include/sdsl/wt_algorithm.hpp
@@ -325,7 +325,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_lte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (wt.max_level < 64 and (c >> wt.max_level) > 0) {
         // c is greater than any symbol in wt. return the largest symbol!
         c = sdsl::bits::lo_set[wt.max_level];
     }
@@ -375,7 +375,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_gte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (wt.max_level < 64 and (c >> wt.max_level) > 0) {
         // c is greater than any symbol in wt
         return {false, 0};
     }
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..bb3c290 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -205,7 +205,7 @@ class wt_int
             size_type tree_pos = 0;
             uint64_t tree_word = 0;
 
-            uint64_t mask_old = 1ULL<<(m_max_level);
+            uint64_t mask_old = 0; // bits of the levels above k
             for (uint32_t k=0; k<m_max_level; ++k) {
                 size_type          start     = 0;
                 const uint64_t    mask_new = 1ULL<<(m_max_level-k-1);
@@ -355,7 +355,7 @@ class wt_int
          */
         size_type rank(size_type i, value_type c)const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and (c>>m_max_level) > 0) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type offset = 0;
@@ -524,7 +524,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type, size_type>>
         t_ret_type lex_count(size_type i, size_type j, value_type c)const {
             assert(i <= j and j <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and (c>>m_max_level) > 0) { // c is greater than any symbol in wt
                 return t_ret_type {0, j-i, 0};
             }
             size_type offset  = 0;
@@ -568,7 +568,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type>>
         t_ret_type lex_smaller_count(size_type i, value_type c) const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and (c>>m_max_level) > 0) { // c is greater than any symbol in wt
                 return t_ret_type {0, i};
             }
             size_type offset = 0;
@@ -609,8 +609,8 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (m_max_level < 64 and (vrb>>m_max_level) > 0)
+                vrb = bits::lo_set[m_max_level];
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
@@ -648,8 +648,7 @@ class wt_int
                 cnt_answers += rb-lb+1;
                 return;
             }
-            size_type irb = ilb + (1ULL << (m_max_level-level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-level-1));
 
             size_type offset = offsets[level];
 
-- 
2.43.0


From 97f2cebfc9896f6b9dc05a905e382ac43a55bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 11/91] fix: bit_vec(node) of wavelet trees over rrr_vector and
 others without const_iterator did not compile

---
 include/sdsl/wt_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index ae9a161..510f5f2 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -644,7 +644,7 @@ class node_bv_container
         typedef typename t_bv::value_type value_type;
         typedef typename t_bv::size_type size_type;
         typedef typename t_bv::difference_type difference_type;
-        typedef typename t_bv::const_iterator iterator;
+        typedef decltype(std::declval<const t_bv&>().begin()) iterator;
     private:
         iterator m_begin, m_end;
     public:
-- 
2.43.0


From 6eb5570b0ba226f5ba4cb0c51aac34c72c657489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 12/91] fix: construct() of a standalone lcp_byte did not
 compile (index_category missing)

---
 include/sdsl/lcp_byte.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/lcp_byte.hpp b/include/sdsl/lcp_byte.hpp
index 7cca84b..a7b1656 100644
--- a/include/sdsl/lcp_byte.hpp
+++ b/include/sdsl/lcp_byte.hpp
@@ -63,7 +63,7 @@ class lcp_byte
         typedef ptrdiff_t                                difference_type;
 
         typedef lcp_plain_tag                            lcp_category;
-        typedef lcp_tag                                  index_tag;
+        typedef lcp_tag                                  index_category;
 
         enum { fast_access = 0,
                text_order  = 0,
-- 
2.43.0


From 6453f26eba59d3b1cea6859f98e7c06dccae4140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 13/91] fix: iterators of lcp_fully did not compile
 (difference_type missing)

---
 include/sdsl/cst_fully.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..eea1e57 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -26,6 +26,7 @@ class lcp_fully
     public:
         typedef typename t_cst::size_type               size_type;
         typedef size_type                               value_type;
+        typedef ptrdiff_t                               difference_type;
         typedef random_access_const_iterator<lcp_fully> const_iterator;
         typedef const_iterator                          iterator;
 
-- 
2.43.0


From 7813e57390b8f4cc0a625b86ee1c5be02464607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 14/91] fix: construct_lcp_bwt_based failed for highly
 repetitive texts (too few bits per value, division by zero)

---
 lib/construct_lcp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 9a8cb21..dba40f1 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -652,7 +652,7 @@ void construct_lcp_bwt_based(cache_config& config)
     if (n*20 < size_in_bytes(wt_bwt)*8*1.25+5*n) {
         bb = 6;
     }
-    bb = std::min(bb, (size_type)8);
+    bb = std::max(std::min(bb, (size_type)8), (size_type)2);    // values 0 and 1 are always handled in the first phase
 
     size_type lcp_value_max = (1ULL<<bb)-1;       // Largest LCP value that can be stored into the LCP array
     size_type space_in_bit_for_lcp = n*bb;        // Space for the LCP array in main memory
@@ -819,7 +819,10 @@ void construct_lcp_bwt_based(cache_config& config)
             lcp_value_offset = lcp_value_max-1;
             size_type remaining_lcp_values = index_done.size()-ds_rank_support.rank(index_done.size());
 
-            uint8_t int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
+            uint8_t int_width_new = 1;
+            if (remaining_lcp_values > 0) {
+                int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
+            }
             lcp_value_max = lcp_value_offset + (1ULL<<int_width_new);
 #ifdef STUDY_INFORMATIONS
             std::cout << "# l=" << remaining_lcp_values << " b=" << (int)int_width_new << " lcp_value_max=" << lcp_value_max << std::endl;
-- 
2.43.0


From aa402acc51361b27b8034ac6272e2c4b3cdc00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 15/91] fix: insert_lcp_values destroyed the header of an
 in-memory LCP array

---
 lib/construct_lcp_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..992d34b 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -39,7 +39,8 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
             ++calc_idx;
         }
     }
-    // Close file and replace old file with new one
+    // Close files and replace old file with new one
+    lcp_buffer.close(); // closing later would overwrite the header of the new file, if it is an in-memory file
     out_buf.close();
     sdsl::rename(tmp_lcp_file, lcp_file);
 }
-- 
2.43.0


From df2539172d872b87f02f60fadf1c1df6b04bfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 16/91] fix: construct_lcp_bwt_based lost the end of the LCP
 array when it was written more than twice

---
 lib/construct_lcp_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 992d34b..f715a36 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -35,6 +35,8 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
                 // Insert value
                 out_buf[i] = partial_lcp[calc_idx]+lcp_value_offset;
                 index_done[i] = true;
+            } else {
+                out_buf[i] = 0; // not yet calculated, but the array has to keep its length
             }
             ++calc_idx;
         }
-- 
2.43.0


From 4d77caf96314d7923ade818ad27475406d88ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 17/91] fix: lcp_support_tree2 returned wrong LCP values for
 nodes on the rightmost path

---
 include/sdsl/lcp_support_tree2.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/lcp_support_tree2.hpp b/include/sdsl/lcp_support_tree2.hpp
index 83a6aa3..d67c21b 100644
--- a/include/sdsl/lcp_support_tree2.hpp
+++ b/include/sdsl/lcp_support_tree2.hpp
@@ -260,11 +260,13 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
         last_bwti = bwt_buf[i];
     }
 
+    is_one_big_and_not_reducable = false;
     while (!vec_stack.empty()) {
         y = vec_stack.top();
+        is_one_big_and_not_reducable |= is_big_and_not_reducable[vec_stack.size()-1];
         if (vec_stack.pop()) {
             if (y > M-2) {
-                if (is_big_and_not_reducable[vec_stack.size()]) {
+                if (is_one_big_and_not_reducable) {
                     val = M;
                     big_lcp_out.write((char*)&y, sizeof(y));
                     ++fc_cnt_big;
@@ -278,6 +280,7 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
             }
             sml_lcp_out.write((const char*)&val, 1);
             ++fc_cnt;
+            is_one_big_and_not_reducable = false;
         }
     }
     // write number of elements of sml_lcp into the out file stream
-- 
2.43.0


From ad481affa27629a9fc07ebaf570fbd00d2f6d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 18/91] fix: bwt.select of csa_wt did not compile (called a
 function that does not exist)

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..8c20766 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From 4514cbc86c01344d3f66571978340654f340dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 19/91] fix: psi/lf of csa_bitcompressed: empty() called itself
 forever

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 8c20766..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
-- 
2.43.0


From 94966055ee015fcace624dca7812f6e72ed936b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 20/91] fix: isa of csa_sada with fuzzy sampling did not
 terminate for positions left of the first sample

---
 include/sdsl/suffix_array_helper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c44765c..064918b 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -561,7 +561,11 @@ class isa_of_csa_psi
             // get the rightmost sampled isa value to the left of i
             auto sample = m_csa.isa_sample.sample_leq(i);
             value_type result = std::get<0>(sample);
-            i = i - std::get<1>(sample);
+            if (std::get<1>(sample) > i) { // the sample was found at the end of the text
+                i = i + m_csa.size() - std::get<1>(sample);
+            } else {
+                i = i - std::get<1>(sample);
+            }
             while (i--) {
                 result = m_csa.psi[result];
             }
-- 
2.43.0


From 52ede049ef3e74c5b269dabd79f4f477d63f7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 21/91] fix: sa_bwt_sampling multiplied the (complete) samples
 by the sampling density

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From d4e8ffa4585e9964417aa9af41deef268ae79b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 22/91] fix: default constructed wt_gmr and wt_gmr_rs had an
 undefined size

---
 include/sdsl/wt_gmr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..759f013 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -63,7 +63,7 @@ class inv_multi_perm_support
     private:
 
         const iv_type*  m_perm = nullptr;// pointer to supported permutation
-        uint64_t        m_chunksize;     // size of one permutation
+        uint64_t        m_chunksize = 0; // size of one permutation
         int_vector<>    m_back_pointer;  // back pointers
         bit_vector_type m_marked;        // back pointer marking
         rank_type       m_marked_rank;   // rank support for back pointer marking
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
-- 
2.43.0


From a1e4488551c69b63b3d0b61fee8cc5e70e2d40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 23/91] fix: copy of wt_gmr referred to the permutation of the
 original

---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index 759f013..cd3fe72 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 031908e8f2a43b3ad9cdb0ad9acf64a652e9be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 24/91] fix: locate on a suffix tree ignored the requested
 result container

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index d4f23f1..60e72ae 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -152,7 +152,7 @@ t_rac locate(
     SDSL_UNUSED typename std::enable_if<std::is_same<cst_tag, typename t_cst::index_category>::value, cst_tag>::type x = cst_tag()
 )
 {
-    return locate(cst.csa, begin, end);
+    return locate<typename t_cst::csa_type, t_pat_iter, t_rac>(cst.csa, begin, end);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of a CST.
-- 
2.43.0


From 9baf9a05f009845c0769cc8a2564a53ba24d1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 25/91] fix: count/locate(cst_fully, string) did not compile
 (string_type missing)

---
 include/sdsl/cst_fully.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index eea1e57..a532680 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -132,6 +132,7 @@ class cst_fully
         typedef t_csa                                     csa_type;
         typedef lcp_fully<cst_fully>                      lcp_type;
         typedef typename t_csa::char_type                 char_type;
+        typedef typename t_csa::string_type               string_type;
         typedef std::pair<size_type, size_type>           node_type; // Nodes are represented by their interval over the CSA
         typedef size_type                                 leaf_type; // Index of a leaf
         typedef size_type                                 sampled_node_type; // Node in the sampled tree represented by its index in s
-- 
2.43.0


From 402721bed32be170ceaae5fe38de1d85dac7a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 26/91] fix: forward_search on cst_fully used the text position
 as string depth

---
 include/sdsl/cst_fully.hpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index a532680..c1a9d86 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -686,15 +686,36 @@ class cst_fully
                  where \f$ m \f$ is the number of leaves in the subtree rooted at node v.
          */
         node_type child(node_type v, char_type c) const
+        {
+            if (is_leaf(v)) {
+                return root();
+            }
+            return child_at_depth(v, c, depth(v));
+        }
+
+//! Get the child w of node v which edge label (v,w) starts with character c.
+        /*!
+         * \param v        A node v.
+         * \param c        First character of the edge label from v to the desired child.
+         * \param char_pos Reference which will hold the position (0-based) of the matching char c in the sorted text/suffix array.
+         * \return The child node w which edge label (v,w) starts with c or root() if it does not exist.
+         */
+        node_type child(node_type v, char_type c, size_type& char_pos) const
         {
             if (is_leaf(v)) {
                 return root();
             }
             size_type d = depth(v);
-            return child(v, c, d);
+            node_type w = child_at_depth(v, c, d);
+            if (w != root()) {
+                char_pos = get_char_pos(w.first, d, m_csa);
+            }
+            return w;
         }
 
-        node_type child(node_type v, char_type c, size_type d) const
+    private:
+        // Get the child of node v, which has depth d, starting with character c.
+        node_type child_at_depth(node_type v, char_type c, size_type d) const
         {
             leaf_type lower;
             leaf_type upper;
@@ -742,6 +763,7 @@ class cst_fully
             return node_type(lower, upper - 1);
         }
 
+    public:
 //! Get the i-th child of a node v.
         /*!
          * \param v A valid tree node of the cst.
@@ -757,14 +779,14 @@ class cst_fully
             size_type d = depth(v);
             size_type char_pos = get_char_pos(v.first, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            node_type res = child(v, c, d);
+            node_type res = child_at_depth(v, c, d);
             while (i > 1) {
                 if (res.second >= v.second) {
                     return root();
                 }
                 char_pos = get_char_pos(res.second + 1, d, m_csa);
                 c = m_csa.F[char_pos];
-                res = child(v, c, d);
+                res = child_at_depth(v, c, d);
                 i--;
             }
 
@@ -785,12 +807,12 @@ class cst_fully
                 size_type d = depth(v);
                 size_type char_pos = get_char_pos(v.first, d, m_csa);
                 char_type c = m_csa.F[char_pos];
-                node_type v_i = child(v, c, d);
+                node_type v_i = child_at_depth(v, c, d);
                 while (v_i.second < v.second) {
                     ++res;
                     char_pos = get_char_pos(v_i.second + 1, d, m_csa);
                     c = m_csa.F[char_pos];
-                    v_i = child(v, c, d);
+                    v_i = child_at_depth(v, c, d);
                 }
                 return res;
             }
@@ -821,7 +843,7 @@ class cst_fully
             size_type d = depth(p);
             size_type char_pos = get_char_pos(v.second + 1, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            return child(p, c, d);
+            return child_at_depth(p, c, d);
         }
 
         char_type edge(node_type v, size_type d) const
-- 
2.43.0


From 9d4d8578beea46c3d3a107dd8b74a3805e1a5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 27/91] fix: wl of cst_fully returned an invalid node instead
 of root() when the Weiner link does not exist

---
 include/sdsl/cst_fully.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index c1a9d86..80dc461 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -636,7 +636,9 @@ class cst_fully
         {
             size_type l, r;
             std::tie(l, r) = v;
-            backward_search(m_csa, l, r, c, l, r);
+            if (0 == backward_search(m_csa, l, r, c, l, r)) {
+                return root();
+            }
             return node_type(l, r);
         }
 
-- 
2.43.0


From 3be6d3241d58b19b5d2afd2ee692f20b1f182061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 28/91] fix: forward_search read outside the alphabet for char
 symbols above 127

---
 include/sdsl/suffix_array_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 02b4be4..3035388 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -73,7 +73,7 @@ forward_search(
     auto compare = [&](typename t_csa::size_type i) -> int {
         for (auto current = begin; current != end; current++)
         {
-            auto index = csa.char2comp[*current];
+            auto index = csa.char2comp[(typename t_csa::char_type)*current];
             if (index == 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
-- 
2.43.0


From 9ca8e6751d9b9072dcb372709de6e31a2a04a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 29/91] fix: bidirectional search truncated the symbols of
 integer alphabets to 8 bits

---
 include/sdsl/suffix_array_algorithm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 3035388..4575b4d 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -264,7 +264,7 @@ typename csa_wt<t_wt>::size_type bidirectional_search(
     typename csa_wt<>::size_type r_fwd,
     typename csa_wt<>::size_type l_bwd,
     typename csa_wt<>::size_type r_bwd,
-    typename csa_wt<>::char_type c,
+    typename csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::char_type c,
     typename csa_wt<>::size_type& l_fwd_res,
     typename csa_wt<>::size_type& r_fwd_res,
     typename csa_wt<>::size_type& l_bwd_res,
@@ -338,7 +338,7 @@ typename csa_wt<>::size_type bidirectional_search_backward(
     t_pat_iter it = end;
     while (begin < it and r_fwd+1-l_fwd > 0) {
         --it;
-        bidirectional_search(csa_fwd, l_fwd, r_fwd, l_bwd, r_bwd, (typename csa_wt<>::char_type)*it, l_fwd, r_fwd, l_bwd, r_bwd);
+        bidirectional_search(csa_fwd, l_fwd, r_fwd, l_bwd, r_bwd, (typename csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::char_type)*it, l_fwd, r_fwd, l_bwd, r_bwd);
     }
     l_fwd_res = l_fwd;
     r_fwd_res = r_fwd;
@@ -403,7 +403,7 @@ bidirectional_search_forward(
 {
     t_pat_iter it = begin;
     while (it < end and r_fwd+1-l_fwd > 0) {
-        bidirectional_search(csa_bwd, l_bwd, r_bwd, l_fwd, r_fwd, (typename csa_wt<>::char_type)*it, l_bwd, r_bwd, l_fwd, r_fwd);
+        bidirectional_search(csa_bwd, l_bwd, r_bwd, l_fwd, r_fwd, (typename csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::char_type)*it, l_bwd, r_bwd, l_fwd, r_fwd);
         ++it;
     }
     l_fwd_res = l_fwd;
-- 
2.43.0


From de0a006071348a06b9b3cd2df2c4ea00499724e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 30/91] fix: lca of cst_sada was wrong if one node is a proper
 ancestor but not the parent of the other

---
 include/sdsl/cst_sada.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..6719f66 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -719,6 +719,8 @@ class cst_sada
             }
             if (v == root())
                 return root();
+            if (m_bp_support.find_close(v) > w)   // v is an ancestor of w
+                return v;
             return m_bp_support.double_enclose(v, w);
         }
 
-- 
2.43.0


From 901d076b7a2cfa96cfcd0006770f7f90966d8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 31/91] fix: copies of a depth first iterator of a suffix tree
 shared (and freed twice) its stack

---
 include/sdsl/cst_iterators.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..6c48606 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -21,6 +21,8 @@
 #ifndef INCLUDED_SDSL_CST_ITERATORS
 #define INCLUDED_SDSL_CST_ITERATORS
 
+#include <algorithm>
+
 namespace sdsl
 {
 
@@ -77,12 +79,12 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Default constructor
-        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr)
+        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr), m_stack_size(0)
         {}
     public:
 
         //! Constructor
-        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr) {
+        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr), m_stack_size(0) {
             m_cst = cst;
             m_v = node;
             if (m_cst == nullptr) {
@@ -95,8 +97,26 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
+        cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator& it):m_cst(it.m_cst), m_v(it.m_v), m_visited(it.m_visited),
+            m_valid(it.m_valid), m_stack_cache(nullptr), m_stack_size(it.m_stack_size)
+        {
+            if (it.m_stack_cache != nullptr) {
+                m_stack_cache = new node_type[cache_size];
+                std::copy(it.m_stack_cache, it.m_stack_cache+std::min(m_stack_size, cache_size), m_stack_cache);
+            }
+        }
+
+        //! Assignment operator
+        cst_dfs_const_forward_iterator& operator=(cst_dfs_const_forward_iterator it)
+        {
+            std::swap(m_cst, it.m_cst);
+            std::swap(m_v, it.m_v);
+            std::swap(m_visited, it.m_visited);
+            std::swap(m_valid, it.m_valid);
+            std::swap(m_stack_cache, it.m_stack_cache);
+            std::swap(m_stack_size, it.m_stack_size);
+            return *this;
+        }
 
         ~cst_dfs_const_forward_iterator() {
             if (m_stack_cache != nullptr) {
-- 
2.43.0


From e2e3e7a2d6491721ed248eb9d255c5e082cab830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 32/91] fix: extract(cst, root) of a byte suffix tree
 constructed a string from a null pointer

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 60e72ae..fb9550d 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -203,7 +203,7 @@ extract(
 {
     typedef typename t_cst::csa_type::string_type t_rac;
     if (v==cst.root()) {
-        return t_rac(0);
+        return t_rac();
     }
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
-- 
2.43.0


From 8451ab1279d0ca40d60608cf1e94411f3a639db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 33/91] fix: extract(cst, v, iterator) did not return the
 length

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index fb9550d..1ab83f9 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -181,7 +181,7 @@ typename t_cst::size_type extract(
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
     // then call the extract method on the compressed suffix array
-    extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
+    return extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of of c CST.
-- 
2.43.0


From 37c975186d5e31bdb09351bae40490b4c4d24d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 34/91] fix: suffix link of the sentinel's leaf was the leaf of
 the whole text in cst_sada and cst_fully

---
 include/sdsl/cst_fully.hpp | 2 ++
 include/sdsl/cst_sada.hpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 80dc461..2ca3690 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -617,6 +617,8 @@ class cst_fully
             if (v == root()) {
                 return root();
             } else if (is_leaf(v)) {
+                if (v.first == 0) // label of v is only the sentinel => suffix link is the root
+                    return root();
                 size_t leaf = m_csa.psi[v.first];
                 return node_type(leaf, leaf);
             }
diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 6719f66..b9d5084 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -738,6 +738,8 @@ class cst_sada
             // get leftmost leaf in the tree rooted at v
             size_type left        = m_bp_rank10(v);
             if (is_leaf(v)) {
+                if (left == 0)  // label of v is only the sentinel => suffix link is the root
+                    return root();
                 return select_leaf(m_csa.psi[left]+1);
             }
             // get the rightmost leaf in the tree rooted at v
-- 
2.43.0


From c5961db6c82409fafc1512734cdbbdea750473d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 35/91] fix: excess lookup tables did not contain the entries
 for a difference of 8

---
 include/sdsl/bp_support_algorithm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/bp_support_algorithm.hpp b/include/sdsl/bp_support_algorithm.hpp
index b1cc13b..e065284 100644
--- a/include/sdsl/bp_support_algorithm.hpp
+++ b/include/sdsl/bp_support_algorithm.hpp
@@ -38,14 +38,14 @@ struct excess {
         // near_fwd_pos[(x+8)<<8 | w] contains the minimal position
         // p in [0..7] where the excess value x is reached, or 8
         // if x is not reached in w.
-        uint8_t near_fwd_pos[(8-(-8))*256];
+        uint8_t near_fwd_pos[(8-(-8)+1)*256];
 
         // Given an excess value of x in [-8,8] and a 8-bit
         // word w interpreted as parentheses sequence.
         // near_bwd_pos[(x+8)<<8 | w] contains the maximal position
         // p in [0..7] where the excess value x is reached, or 8
         // if x is not reached in w.
-        uint8_t near_bwd_pos[(8-(-8))*256];
+        uint8_t near_bwd_pos[(8-(-8)+1)*256];
 
         // Given a 8-bit word w. word_sum[w] contains the
         // excess value of w.
@@ -83,7 +83,7 @@ struct excess {
         uint16_t min_open_excess_info[256];
 
         impl() {
-            for (int32_t x = -8; x < 8; ++x) {
+            for (int32_t x = -8; x <= 8; ++x) {
                 for (uint16_t w=0; w < 256; ++w) {
                     uint16_t i = (x+8)<<8|w;
                     near_fwd_pos[i] = 8;
-- 
2.43.0


From 9bb55bc5dcb40900c3b928ce0648e867548fcf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 36/91] fix: near_bwd_excess scanned a position twice if the
 block size is no multiple of 8

---
 lib/bp_support_algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bp_support_algorithm.cpp b/lib/bp_support_algorithm.cpp
index 40a9a0c..e45ce26 100644
--- a/lib/bp_support_algorithm.cpp
+++ b/lib/bp_support_algorithm.cpp
@@ -281,7 +281,7 @@ near_bwd_excess(const bit_vector& bp, uint64_t i, bit_vector::difference_type re
         excess += excess::data.word_sum[((*(b+(j>>6)))>>(j&0x3F))&0xFF];
     }
     excess -= 8;
-    for (difference_type j=std::min(l, r); j > begin; --j) {
+    for (difference_type j=std::min(l, r)-1; j >= begin; --j) {
         if (bp[j])
             ++excess;
         else
-- 
2.43.0


From 108c4cbf4a97f717cfcb55040420b4a49cd059f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 37/91] fix: level_anc of bp_support_sada did not find the
 first parenthesis

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 655679c..d48efe6 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -270,7 +270,7 @@ class bp_support_sada
         {
             size_type j;
             if (i == 0) {
-                return rel == 0 ? -1 : size();
+                return (difference_type)excess(i)+rel == 0 ? -1 : size();
             }
             // (1) search the small block for the answer
             if ((j = near_bwd_excess(*m_bp, i-1, rel, t_sml_blk)) < i or j == (size_type)-1) {
-- 
2.43.0


From fe513b9dac709c0aff5d6afcb672f4de692131cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 38/91] fix: rmq_open and rmq of bp_support_g/gg at closing
 parentheses and at the end

---
 include/sdsl/bp_support_g.hpp  | 15 ++++++---------
 include/sdsl/bp_support_gg.hpp |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/sdsl/bp_support_g.hpp b/include/sdsl/bp_support_g.hpp
index 567a371..3b35a92 100644
--- a/include/sdsl/bp_support_g.hpp
+++ b/include/sdsl/bp_support_g.hpp
@@ -431,7 +431,7 @@ class bp_support_g
          *     \f$ \Order{block\_size} \f$
          */
         size_type rmq_open(const size_type l, const size_type r)const {
-            if (l >= r)
+            if (l >= r or r >= size()) // no parenthesis is matched at or after size()
                 return size();
             size_type        min_ex_pos = r;
 
@@ -441,7 +441,7 @@ class bp_support_g
 //                assert( l>1 ); // mi is at greater or equal than 1
                 // note: mi and r are not in the same block
                 size_type        k, ex;    // helper variables
-                size_type         min_ex = excess(r);// + 2*((*m_bp[r])==0); // minimal excess
+                size_type         min_ex = excess(r) + 2*((*m_bp)[r]==0); // minimal excess
                 const size_type bl = (l/t_bs+1)*t_bs;  // leftmost position of the leftmost block between the blocks of l and r
                 const size_type br = (r/t_bs)*t_bs;       // leftmost position of the block of r
 
@@ -543,16 +543,13 @@ class bp_support_g
         size_type rmq(size_type l, size_type r)const {
             assert(l<=r);
             size_type m = rmq_open(l, r+1);
-            if (m==l)
+            if (m==size()) // every parenthesis opened in [l..r] is closed in [l..r]
+                return r;
+            else if (m==l)
                 return l;
             else { // m>l and m<=r
                 assert(0 == (*m_bp)[m-1]);
-                size_type prev_open = m_rank_bp(m);
-                if (prev_open == 0 or m_select_bp(prev_open) < l) { // if there exists no opening parenthesis to the left of m which is greater or equal than l
-                    return l;
-                } else {
-                    return m-1;
-                }
+                return m-1;
             }
         }
 
diff --git a/include/sdsl/bp_support_gg.hpp b/include/sdsl/bp_support_gg.hpp
index 74d1632..ceb6f42 100644
--- a/include/sdsl/bp_support_gg.hpp
+++ b/include/sdsl/bp_support_gg.hpp
@@ -379,7 +379,7 @@ class bp_support_gg
          */
         size_type rmq_open(const size_type l, const size_type r)const
         {
-            if (l >= r)
+            if (l >= r or r >= size()) // no parenthesis is matched at or after size()
                 return size();
             size_type        min_ex_pos = r;
 
-- 
2.43.0


From 6cac1ffb147b82bf9051d8e712d7205ae224fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 39/91] fix: supercartesian tree of maxima from a buffer pushed
 decreasing values on a sorted stack

---
 include/sdsl/suffix_tree_helper.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/suffix_tree_helper.hpp b/include/sdsl/suffix_tree_helper.hpp
index ab23e2b..89c9cae 100644
--- a/include/sdsl/suffix_tree_helper.hpp
+++ b/include/sdsl/suffix_tree_helper.hpp
@@ -204,8 +204,8 @@ construct_supercartesian_tree_bp_succinct(int_vector_buffer<t_width>& lcp_buf, c
         } else {
             // no "lazy stack" trick use here
             for (size_type i=0, x; i < lcp_buf.size(); ++i) {
-                x = lcp_buf[i];
-                while (!vec_stack.empty() and x > vec_stack.top()) {
+                x = lcp_buf.size()-1-lcp_buf[i]; // the stack requires increasing values
+                while (!vec_stack.empty() and x < vec_stack.top()) {
                     vec_stack.pop(); ++k; // writing a closing parenthesis, bp is already initialized to zeros
                 }
                 vec_stack.push(x);
@@ -263,8 +263,8 @@ construct_supercartesian_tree_bp_succinct_and_first_child(int_vector_buffer<t_wi
     } else {
         // no "lazy stack" trick used here
         for (size_type i=0, x; i < n; ++i) {
-            x = lcp_buf[i];
-            while (!vec_stack.empty() and x > vec_stack.top()) {
+            x = n-1-lcp_buf[i]; // the stack requires increasing values
+            while (!vec_stack.empty() and x < vec_stack.top()) {
                 if (vec_stack.pop()) {
                     bp_fc[k_fc] = 1;
                     ++fc_cnt;
-- 
2.43.0


From 25a64c0cb498a8befb591068c5a40334f9035d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 40/91] fix: rmq_support_sparse_table wrote into a missing
 table for two descending elements

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..8c8bf1f 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 1572a1e3a241bbc5c4df175e020dc0fe713a2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 41/91] fix: root of a k2_treap which only contains the point
 (0,0) read coordinates that do not exist

---
 include/sdsl/k2_treap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..00192c0 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -395,8 +395,9 @@ class k2_treap
         node_type
         root() const
         {
-            return node_type(t, t_p(0,0), 0, m_maxval[0],
-                             t_p(m_coord[t-1][0], m_coord[t-1][1]));
+            // if t=0 then the treap consists of the single point (0,0)
+            t_p max_p = t > 0 ? t_p(m_coord[t-1][0], m_coord[t-1][1]) : t_p(0,0);
+            return node_type(t, t_p(0,0), 0, m_maxval[0], max_p);
         }
 
         bool
-- 
2.43.0


From e8c7a775fa17af1aeb87671a4a2818003f4682e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 42/91] fix: k2_tree computed heights and node positions in
 floating point, wrong for more than 2^53 nodes

---
 include/sdsl/k2_tree.hpp        | 45 +++++++++++++++------------------
 include/sdsl/k2_tree_helper.hpp | 18 +++++++++++++
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..63190b1 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -71,7 +71,7 @@ class k2_tree
         void build_from_matrix(const std::vector<std::vector <int>>& matrix)
         {
             // Makes the size a power of k.
-            int simulated_size = std::pow(k, k_height);
+            int simulated_size = k2_tree_ns::pow_of_k(k, k_height);
             std::vector<std::deque<bit_vector>> acc(k_height + 1);
 
             k2_tree_ns::_build_from_matrix<bit_vector>(matrix, k,
@@ -131,8 +131,8 @@ class k2_tree
             }
 
             if (k_t[level] == 1) {
-                idx_type y = k_t_rank(level + 1) * std::pow(k_k, 2) +
-                             k_k * std::floor(row/static_cast<double>(n));
+                idx_type y = k_t_rank(level + 1) * k2_tree_ns::pow_of_k(k_k, 2) +
+                             k_k * (row/n);
                 for (unsigned j = 0; j < k_k; j++)
                     _neigh(n/k_k, row % n, col + n * j, y + j, acc);
             }
@@ -160,8 +160,8 @@ class k2_tree
             }
 
             if (k_t[level] == 1) {
-                idx_type y = k_t_rank(level + 1) * std::pow(k_k, 2) +
-                             std::floor(col/static_cast<double>(n));
+                idx_type y = k_t_rank(level + 1) * k2_tree_ns::pow_of_k(k_k, 2) +
+                             col/n;
                 for (unsigned j = 0; j < k_k; j++)
                     _reverse_neigh(n/k_k, row + n * j, col % n,
                                    y + j * k_k, acc);
@@ -185,16 +185,15 @@ class k2_tree
                     idx_type> t_part_tuple;
 
             k_k = k;
-            k_height = std::ceil(std::log(size)/std::log(k_k));
-            k_height = k_height > 1 ? k_height : 1; // If size == 0
-            size_type k_2 = std::pow(k_k, 2);
+            k_height = k2_tree_ns::height_of_tree(k_k, size);
+            size_type k_2 = k2_tree_ns::pow_of_k(k_k, 2);
             bit_vector k_t_ = bit_vector(k_2 * k_height * edges.size(), 0);
             bit_vector k_l_;
 
             std::queue<t_part_tuple> q;
             idx_type t = 0, last_level = 0;
             idx_type i, j, r_0, c_0, it, c, r;
-            size_type l = std::pow(k_k, k_height - 1);
+            size_type l = k2_tree_ns::pow_of_k(k_k, k_height - 1);
             std::vector<idx_type> pos_by_chunk(k_2 + 1, 0);
 
             q.push(t_part_tuple(0, edges.size(), l, 0, 0));
@@ -287,10 +286,8 @@ class k2_tree
             }
             std::vector<bit_vector> t;
             k_k = k;
-            if (matrix.size() < k_k)
-                k_height = 1;
-            else // height = log_k n
-                k_height = std::ceil(std::log(matrix.size())/std::log(k_k));
+            // height = log_k n
+            k_height = k2_tree_ns::height_of_tree(k_k, matrix.size());
 
             build_from_matrix(matrix);
 
@@ -444,15 +441,15 @@ class k2_tree
         {
             if (k_t.size() == 0 && k_l.size() == 0)
                 return false;
-            size_type n = std::pow(k_k, k_height - 1);
-            size_type k_2 = std::pow(k_k, 2);
+            size_type n = k2_tree_ns::pow_of_k(k_k, k_height - 1);
+            size_type k_2 = k2_tree_ns::pow_of_k(k_k, 2);
             idx_type col, row;
 
             // This is duplicated to avoid an extra if at the loop. As idx_type
             // is unsigned and rank has an offset of one, is not possible to run
             // k_t_rank with zero as parameter at the first iteration.
-            row = std::floor(i/static_cast<double>(n));
-            col = std::floor(j/static_cast<double>(n));
+            row = i/n;
+            col = j/n;
             i = i % n;
             j = j % n;
             idx_type level = k_k * row + col;
@@ -461,8 +458,8 @@ class k2_tree
             while (level < k_t.size()) {
                 if (k_t[level] == 0)
                     return false;
-                row = std::floor(i/static_cast<double>(n));
-                col = std::floor(j/static_cast<double>(n));
+                row = i/n;
+                col = j/n;
                 i = i % n;
                 j = j % n;
                 level = k_t_rank(level + 1) * k_2 + k_k * row + col;
@@ -486,9 +483,9 @@ class k2_tree
 			// k^h - dimension n of matrix nxn
 			// /k  - to calculate div only once and not for for all parameter again, always (n/k)
             size_type n =
-                static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
+                k2_tree_ns::pow_of_k(k_k, k_height - 1);
 			// y = k * i/n
-            idx_type y = k_k * std::floor(i/static_cast<double>(n));
+            idx_type y = k_k * (i/n);
             for (unsigned j = 0; j < k_k; j++)
                 _neigh(n/k_k, i % n, n * j, y + j, acc);
             return acc;
@@ -506,8 +503,8 @@ class k2_tree
                 return acc;
             // Size of the first square division
             size_type n =
-                static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
-            idx_type y = std::floor(i/static_cast<double>(n));
+                k2_tree_ns::pow_of_k(k_k, k_height - 1);
+            idx_type y = i/n;
             for (unsigned j = 0; j < k_k; j++)
                 _reverse_neigh(n/k_k, n * j, i % n, y + j * k_k, acc);
 
@@ -520,7 +517,7 @@ class k2_tree
 		) const {
 			std::vector<std::pair<idx_type,idx_type>> res;
 
-			size_type n = static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
+			size_type n = k2_tree_ns::pow_of_k(k_k, k_height - 1);
 			struct state{
 				idx_type n, row1, row2, col1, col2, dr, dc, z;
 				state(idx_type n, idx_type row1, idx_type row2, idx_type col1, idx_type col2,
diff --git a/include/sdsl/k2_tree_helper.hpp b/include/sdsl/k2_tree_helper.hpp
index 61ac999..489eaee 100644
--- a/include/sdsl/k2_tree_helper.hpp
+++ b/include/sdsl/k2_tree_helper.hpp
@@ -37,6 +37,24 @@ namespace k2_tree_ns
 typedef int_vector<>::size_type idx_type;
 typedef int_vector<>::size_type size_type;
 
+//! Computes k to the power of e (exactly, in contrast to std::pow)
+inline size_type pow_of_k(size_type k, size_type e)
+{
+    size_type res = 1;
+    while (e-- > 0)
+        res *= k;
+    return res;
+}
+
+//! Height of the tree for size nodes: smallest h >= 1 with k^h >= size
+inline uint16_t height_of_tree(size_type k, size_type size)
+{
+    uint16_t h = 1;
+    for (size_type n = size > 0 ? (size-1)/k : 0; n > 0; n /= k)
+        ++h;
+    return h;
+}
+
 template<typename t_bv=bit_vector>
 int _build_from_matrix(const std::vector<std::vector <int>>& matrix,
                        const uint8_t k, int n, const int height,
-- 
2.43.0


From f2cacfb036a4c3785514acdda2b8c8107cf3f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 43/91] fix: range of a k2_tree without edges read bits that do
 not exist

---
 include/sdsl/k2_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 63190b1..6b3af8e 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -516,6 +516,8 @@ class k2_tree
 			idx_type col1, idx_type col2
 		) const {
 			std::vector<std::pair<idx_type,idx_type>> res;
+			if (k_l.size() == 0 && k_t.size() == 0)
+				return res;
 
 			size_type n = k2_tree_ns::pow_of_k(k_k, k_height - 1);
 			struct state{
-- 
2.43.0


From b8019b62f8b56de2066ea6a9a92da5d3fafa71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 44/91] fix: sorted_multi_stack_support wrote behind its memory
 when duplicates made the stack larger than its range

---
 include/sdsl/sorted_multi_stack_support.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sdsl/sorted_multi_stack_support.hpp b/include/sdsl/sorted_multi_stack_support.hpp
index 83213b0..92413d3 100644
--- a/include/sdsl/sorted_multi_stack_support.hpp
+++ b/include/sdsl/sorted_multi_stack_support.hpp
@@ -110,6 +110,12 @@ inline sorted_multi_stack_support::size_type sorted_multi_stack_support::top()co
 inline bool sorted_multi_stack_support::push(size_type x)
 {
     x += 1;
+    if (m_cnt == 64*m_duplication_stack.size()) { // duplicates may exceed the initial space
+        size_type old_size = m_duplication_stack.size();
+        m_duplication_stack.resize(2*old_size);
+        for (size_type i = old_size; i < 2*old_size; ++i)
+            m_duplication_stack[i] = 0;
+    }
     size_type bn = block_nr(x);
     if (0 == ((m_stack[bn] >> block_pos(x))&1)) { // check if x is not already on the stack
         m_stack[bn] ^= (1ULL << block_pos(x));
-- 
2.43.0


From da9b04f48a03fa852d6e9edf6990016eefbe6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 45/91] fix: copies of a louds_node referred to the node they
 were copied from

---
 include/sdsl/louds_tree.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..98fa6cd 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,15 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        // nr and pos refer to the node itself
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr  = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
-- 
2.43.0


From 0eb7793bd5e77955a0fe005a4e800df56e599b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 46/91] fix: swap and serialize of louds_tree did not compile

---
 include/sdsl/louds_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 98fa6cd..645ae64 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -188,16 +188,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From e6eb7dc5d0666f20f214b61439ffdc4d959a3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 47/91] fix: shifting an uint256_t to the left by 0 changed its
 value

---
 include/sdsl/uint256_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/uint256_t.hpp b/include/sdsl/uint256_t.hpp
index e1fd69b..73a3a4b 100644
--- a/include/sdsl/uint256_t.hpp
+++ b/include/sdsl/uint256_t.hpp
@@ -157,7 +157,7 @@ class uint256_t
             if (x < 128) {
                 uint128_t high = m_high << x;
                 uint128_t low  = (((uint128_t)m_mid<<64) | m_lo);
-                high |= (low >> (128-x));
+                high |= ((low >> (127-x))>>1);
                 low = low << x;
                 return uint256_t(low, low>>64, high);
             } else { // x >= 128
-- 
2.43.0


From 1bbe99c15f113bdc883f722cbed45f412a37b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 48/91] fix: remove and rename of RAM-files ignored missing
 files, rename to the own name deleted the file, file_size of a missing disk
 file was random

---
 lib/ram_fs.cpp | 18 +++++++++++-------
 lib/util.cpp   |  3 +--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..9a89106 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -72,16 +72,20 @@ int
 ram_fs::remove(const std::string& name)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map.erase(name);
-    return 0;
+    return m_map.erase(name) ? 0 : -1;
 }
 
 int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map[new_filename] = std::move(m_map[old_filename]);
-    remove(old_filename);
+    if (!exists(old_filename)) {
+        return -1;
+    }
+    if (old_filename != new_filename) {
+        m_map[new_filename] = std::move(m_map[old_filename]);
+        remove(old_filename);
+    }
     return 0;
 }
 
@@ -124,10 +128,10 @@ int remove(const std::string& file)
 
 int rename(const std::string& old_filename, const std::string& new_filename)
 {
+    if (is_ram_file(old_filename) != is_ram_file(new_filename)) {
+        return -1;  // error, if only one of the files is a RAM-file
+    }
     if (is_ram_file(old_filename)) {
-        if (!is_ram_file(new_filename)) {  // error, if new file is not also RAM-file
-            return -1;
-        }
         return ram_fs::rename(old_filename, new_filename);
     } else {
         return std::rename(old_filename.c_str(), new_filename.c_str());
diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..1fe546d 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,8 +171,7 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
-        return fs.st_size;
+        return stat(file.c_str(), &fs) == 0 ? fs.st_size : 0;
     }
 }
 
-- 
2.43.0


From 2247676ba1ce9bbedfa0614d94d5261bd2d3b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 49/91] fix: RAM-file streams: stale positions after growing,
 positions of tellp and seeks from the current position, append and ate, use
 after close and negative positions

---
 include/sdsl/ram_filebuf.hpp |  6 +++
 lib/ram_filebuf.cpp          | 79 +++++++++++++++++++-----------------
 2 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/include/sdsl/ram_filebuf.hpp b/include/sdsl/ram_filebuf.hpp
index 04ccfe1..ad23b2a 100644
--- a/include/sdsl/ram_filebuf.hpp
+++ b/include/sdsl/ram_filebuf.hpp
@@ -12,7 +12,9 @@ class ram_filebuf : public std::streambuf
 {
     private:
         ram_fs::content_type* m_ram_file = nullptr;  // file handle
+        bool                  m_append   = false;    // all output is appended
         void pbump64(std::ptrdiff_t);
+        void set_position(std::ptrdiff_t);
 
     public:
         virtual ~ram_filebuf();
@@ -32,6 +34,10 @@ class ram_filebuf : public std::streambuf
         seekpos(pos_type sp,
                 std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
 
+        pos_type
+        seekoff(off_type off, std::ios_base::seekdir way,
+                std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
+
         pos_type
         pubseekoff(off_type off, std::ios_base::seekdir way,
                    std::ios_base::openmode which = std::ios_base::in | std::ios_base::out);
diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..d52ef11 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -48,13 +48,8 @@ ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
         m_ram_file->clear();
     }
     if (m_ram_file) {
-        if (mode & std::ios_base::ate) {
-            // TODO: move put pointer to the end of the file
-        } else {
-
-        }
-        setg(m_ram_file->data(), m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+        m_append = mode & std::ios_base::app;
+        set_position((mode & std::ios_base::ate) ? m_ram_file->size() : 0);
     }
 // ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
     return m_ram_file ? this : nullptr;
@@ -80,21 +75,18 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
-    if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
-        setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        pbump64(sp);
-    } else {
+    if (!is_open() or sp < (pos_type)0) {
+        return pos_type(off_type(-1));
+    }
+    if (sp > (pos_type)m_ram_file->size()) {
         if (mode & std::ios_base::out) {
             // extend buffer
             m_ram_file->resize(sp, 0);
-            setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
-            setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-            pbump64(sp);
         } else {
             return pos_type(off_type(-1));
         }
     }
+    set_position(sp);
     return sp;
 }
 
@@ -102,31 +94,29 @@ ram_filebuf::pos_type
 ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
                         std::ios_base::openmode which)
 {
-    if (std::ios_base::beg == way) {
-        if (seekpos(off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
-    } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
+    return seekoff(off, way, which);
+}
+
+ram_filebuf::pos_type
+ram_filebuf::seekoff(off_type off, std::ios_base::seekdir way,
+                     std::ios_base::openmode which)
+{
+    if (!is_open()) {
+        return pos_type(off_type(-1));
+    }
+    if (std::ios_base::cur == way) {
+        off += (which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase();
     } else if (std::ios_base::end == way) {
-        if (seekpos(egptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
+        off += m_ram_file->size();
     }
-    return gptr()-eback();
+    return seekpos(off, which);
 }
 
 
 ram_filebuf::pos_type
 ram_filebuf::pubseekpos(pos_type sp, std::ios_base::openmode which)
 {
-    if (seekpos(sp, which) == pos_type(-1)) {
-        return pos_type(-1);
-    } else {
-        return gptr()-eback();
-    }
+    return seekpos(sp, which);
 }
 
 int
@@ -138,14 +128,27 @@ ram_filebuf::sync()
 ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
-    if (m_ram_file) {
-        m_ram_file->push_back(c);
+    if (!is_open()) {
+        return traits_type::eof();
+    }
+    if (!traits_type::eq_int_type(c, traits_type::eof())) {
+        std::ptrdiff_t get_pos = gptr()-eback();
+        m_ram_file->push_back(traits_type::to_char_type(c));
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        std::ptrdiff_t add = epptr()-pbase();
-        pbump64(add);
-        setg(m_ram_file->data(), gptr(), m_ram_file->data()+m_ram_file->size());
+        pbump64(m_ram_file->size());
+        // push_back may have moved the content
+        setg(m_ram_file->data(), m_ram_file->data()+get_pos, m_ram_file->data()+m_ram_file->size());
     }
-    return traits_type::to_int_type(c);
+    return traits_type::not_eof(c);
+}
+
+void ram_filebuf::set_position(std::ptrdiff_t pos)
+{
+    char* begin = m_ram_file->data();
+    char* end   = begin + m_ram_file->size();
+    setg(begin, begin+pos, end);
+    setp(begin, end);
+    pbump64(m_append ? end-begin : pos);
 }
 
 void ram_filebuf::pbump64(std::ptrdiff_t x)
-- 
2.43.0


From 988eaa78c234d542b47c8d41cea6d702ee58936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 50/91] fix: osfstream::tellp was not defined, isfstream::seekg
 did not report failures

---
 lib/sfstream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 848e5d8..c7a1da1 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -135,6 +135,16 @@ osfstream::seekp(off_type off, std::ios_base::seekdir way)
 
 
 
+std::streampos
+osfstream::tellp()
+{
+    pos_type p = pos_type(off_type(-1));
+    if (!this->fail()) {
+        p = m_streambuf->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+    }
+    return p;
+}
+
 //  IMPLEMENTATION OF ISFSTREAM
 
 isfstream::isfstream() : std::istream(nullptr)
@@ -216,6 +226,7 @@ isfstream::seekg(pos_type pos)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -242,6 +253,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
-- 
2.43.0


From 1815e75c423dc197688bc4e4cb85e03a38fcba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 51/91] fix: move constructors of succinct_byte_alphabet and
 int_alphabet did not compile

---
 include/sdsl/csa_alphabet_strategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From 204ece680091c95f392c272617d2ba637b0ab9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 52/91] fix: moved csa_sada and csa_wt kept an inverse suffix
 array support attached to the object they were moved from

---
 include/sdsl/csa_sada.hpp | 3 ++-
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..0552afe 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -169,6 +169,7 @@ class csa_sada
         //! Move constructor
         csa_sada(csa_sada&& csa)
         {
+            create_buffer();
             *this = std::move(csa);
         }
 
@@ -263,8 +264,8 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
-                m_psi_buf    = std::move(csa.m_psi_buf);
             }
             return *this;
         }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From 64c0174d8b7bc069cf08f9976f033753a1babd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 53/91] fix: swap of the fuzzy inverse suffix array sampling
 lost its suffix array samples

---
 include/sdsl/csa_sampling_strategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index e8e057b..239e871 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -907,6 +907,7 @@ class _fuzzy_isa_sampling_support
         //! Swap operation
         void swap(_fuzzy_isa_sampling_support& st)
         {
+            std::swap(m_sa_p, st.m_sa_p);
             m_select_marked_sa.swap(st.m_select_marked_sa);
         }
 
-- 
2.43.0


From 34593eaa5a24ebff39128ab5535210df2f3b2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 54/91] fix: loading an empty rmq_support_sparse_table kept the
 table of the former content

---
 include/sdsl/rmq_support_sparse_table.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index 8c8bf1f..22f23e8 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -190,11 +190,9 @@ class rmq_support_sparse_table
         {
             set_vector(v);
             read_member(m_k, in);
-            if (m_k >0) {
-                m_table.resize(m_k);
-                for (size_type i=0; i < m_k; ++i)
-                    m_table[i].load(in);
-            }
+            m_table.resize(m_k);
+            for (size_type i=0; i < m_k; ++i)
+                m_table[i].load(in);
         }
 };
 
-- 
2.43.0


From 53f7972f09e36d1089c13c7399f73f1f80ff798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 55/91] fix: k2_tree and k2_treap could not be assigned from
 constant objects

---
 include/sdsl/k2_treap.hpp | 2 +-
 include/sdsl/k2_tree.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 00192c0..9cb3c8a 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 6b3af8e..2c30dc2 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -378,7 +378,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
-- 
2.43.0


From 8d1267e49e777b286e769688178b80bbb1dd96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 56/91] fix: members of a default constructed k2_tree were not
 initialised

---
 include/sdsl/k2_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 2c30dc2..b5183c7 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -63,8 +63,8 @@ class k2_tree
 
         t_rank      k_t_rank;
 
-        uint8_t     k_k;
-        uint16_t    k_height;
+        uint8_t     k_k = k;
+        uint16_t    k_height = 0;
 
     protected:
 
-- 
2.43.0


From 2e270540db09c127f28645ef748feaf0b4158441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 57/91] fix: members of a default constructed nn_dict_dynamic
 were not initialised

---
 include/sdsl/nn_dict_dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/nn_dict_dynamic.hpp b/include/sdsl/nn_dict_dynamic.hpp
index b3474e3..ff5660a 100644
--- a/include/sdsl/nn_dict_dynamic.hpp
+++ b/include/sdsl/nn_dict_dynamic.hpp
@@ -48,8 +48,8 @@ class nn_dict_dynamic
         friend class reference;
         friend void util::set_zero_bits(nn_dict_dynamic& nn);
     private:
-        uint64_t m_depth;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
-        uint64_t m_v_begin_leaves;		// Virtual begin of leaves
+        uint64_t m_depth = 0;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
+        uint64_t m_v_begin_leaves = 0;		// Virtual begin of leaves
         size_type m_size;
         int_vector<64> m_offset;	 	// Number of nodes to skip on each level
         int_vector<64> m_tree; 			// Tree
-- 
2.43.0


From 46779989cedbb88157493e913319d6eddf43d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 58/91] fix: a default constructed wavelet tree over bytes had
 an uninitialised code table

---
 include/sdsl/wt_helper.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index 510f5f2..4898236 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -159,7 +159,12 @@ struct _byte_tree {
             m_path[i] = bt.m_path[i];
     }
 
-    _byte_tree() {}
+    _byte_tree() {
+        for (uint32_t i=0; i<fixed_sigma; ++i) {
+            m_c_to_leaf[i] = undef;
+            m_path[i] = 0;
+        }
+    }
 
     _byte_tree(const std::vector<pc_node>& temp_nodes, uint64_t& bv_size, const t_wt*) {
         m_nodes.resize(temp_nodes.size());
-- 
2.43.0


From cc97c4ae5ce9c64aa67f6700d6e02d05a05328d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 59/91] fix: members of default constructed cst_sct3 and
 cst_fully were not initialised

---
 include/sdsl/cst_fully.hpp | 4 ++--
 include/sdsl/cst_sct3.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 2ca3690..51c1e7e 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -146,8 +146,8 @@ class cst_fully
         typedef cst_tag                                   index_category;
 
     private:
-        size_type        m_delta;
-        size_type        m_nodes;
+        size_type        m_delta = 0;
+        size_type        m_nodes = 0;
         csa_type         m_csa;
         bit_vector       m_s;
         s_support_type   m_s_support;
diff --git a/include/sdsl/cst_sct3.hpp b/include/sdsl/cst_sct3.hpp
index b8ed964..4b7ae68 100644
--- a/include/sdsl/cst_sct3.hpp
+++ b/include/sdsl/cst_sct3.hpp
@@ -131,7 +131,7 @@ class cst_sct3
         bv_type         m_first_child;
         rank_type       m_first_child_rank;
         sel_type        m_first_child_select;
-        size_type       m_nodes;
+        size_type       m_nodes = 0;
 
         void copy(const cst_sct3& cst)
         {
-- 
2.43.0


From ce06692d6f733acd3ae5b0693f012f46b072e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 60/91] fix: size of a string was added to the parent of its
 structure tree node

---
 lib/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..01b7dc3 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -61,7 +61,7 @@ size_t write_member<std::string>(const std::string& t, std::ostream& out, struct
     written_bytes += write_member(t.size(), out, child, "length");
     out.write(t.c_str(), t.size());
     written_bytes += t.size();
-    structure_tree::add_size(v, written_bytes);
+    structure_tree::add_size(child, written_bytes);
     return written_bytes;
 }
 
-- 
2.43.0


From 26cc2b3a0b4f5124cb09596229e7a30b8f19a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 61/91] fix: structure tree nodes were merged when only name
 and type together were equal

---
 include/sdsl/structure_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/structure_tree.hpp b/include/sdsl/structure_tree.hpp
index e9a94f5..710569b 100644
--- a/include/sdsl/structure_tree.hpp
+++ b/include/sdsl/structure_tree.hpp
@@ -30,7 +30,7 @@ class structure_tree_node
     public:
         structure_tree_node(const std::string& n, const std::string& t) : name(n) , type(t) {}
         structure_tree_node* add_child(const std::string& n, const std::string& t) {
-            auto hash = n+t;
+            auto hash = std::to_string(n.size())+":"+n+t;
             auto child_itr = m_children.find(hash);
             if (child_itr == m_children.end()) {
                 // add new child as we don't have one of this type yet
-- 
2.43.0


From c7c3df21fb1483fe546ff0362b7a12d8b5ea3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 62/91] fix: a serialized vector made two nodes in the
 structure tree, so its JSON was not well-formed

---
 include/sdsl/io.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..b523381 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -134,9 +134,11 @@ serialize(const std::vector<X>& x,
           std::ostream& out, structure_tree_node* v=nullptr,
           std::string name="")
 {
-
-    return serialize(x.size(), out, v, name)
-           + serialize_vector(x, out, v, name);
+    structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(x));
+    uint64_t written_bytes = serialize(x.size(), out, child, "size");
+    written_bytes += serialize_vector(x, out, child, "elements");
+    structure_tree::add_size(child, written_bytes);
+    return written_bytes;
 }
 
 
-- 
2.43.0


From e5c579931bb741309a826339f9366f6fd2a49910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 63/91] fix: the root of the structure tree of several
 structures had size 0

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index b523381..50c4a6c 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -394,7 +394,7 @@ template<typename X, typename... Xs>
 void _write_structure(std::unique_ptr<structure_tree_node>& st_node, X x, Xs... xs)
 {
     nullstream ns;
-    serialize(x, ns, st_node.get(), "");
+    structure_tree::add_size(st_node.get(), serialize(x, ns, st_node.get(), ""));
     _write_structure(st_node, xs...);
 }
 
-- 
2.43.0


From 893817fcef3b6e09e124da123b50ca0e97fe74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 64/91] fix: the fuzzy inverse suffix array sampling attached
 its component to the wrong structure tree node

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 239e871..7fad41f 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -916,7 +916,7 @@ class _fuzzy_isa_sampling_support
         {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            written_bytes += m_select_marked_sa.serialize(out, v, "select_marked_sa");
+            written_bytes += m_select_marked_sa.serialize(out, child, "select_marked_sa");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From b3f98df9112ef3bd76f7b973e56e1afebef78d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 65/91] fix: copying a non-constant dac_vector_dp encoded its
 values again

---
 include/sdsl/dac_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 732e53d..f64f3b2 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -139,6 +139,10 @@ class dac_vector_dp
             m_overflow_rank.set_vector(&m_overflow);
         }
 
+        // without it, the constructor for containers would be chosen
+        dac_vector_dp(dac_vector_dp& other)
+            : dac_vector_dp(static_cast<const dac_vector_dp&>(other)) {}
+
         void swap(dac_vector_dp& other) {
             std::swap(m_size, other.m_size);
             m_overflow.swap(other.m_overflow);
-- 
2.43.0


From 569aed358ae51d3c9e4212b6f2737c216492f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 66/91] fix: moving or swapping a closed int_vector_buffer
 opened its file again

---
 include/sdsl/int_vector_buffer.hpp | 49 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..c4e4ad7 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -183,12 +183,14 @@ class int_vector_buffer
             m_size(ivb.m_size),
             m_begin(ivb.m_begin)
         {
-            ivb.m_ifile.close();
-            ivb.m_ofile.close();
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-            assert(m_ifile.good());
-            assert(m_ofile.good());
+            if (ivb.is_open()) { // a closed buffer has no file to take over
+                ivb.m_ifile.close();
+                ivb.m_ofile.close();
+                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                assert(m_ifile.good());
+                assert(m_ofile.good());
+            }
             // set ivb to default-constructor state
             ivb.m_filename = "";
             ivb.m_buffer = int_vector<t_width>();
@@ -209,13 +211,15 @@ class int_vector_buffer
         int_vector_buffer<t_width>& operator=(int_vector_buffer&& ivb)
         {
             close();
-            ivb.m_ifile.close();
-            ivb.m_ofile.close();
             m_filename = ivb.m_filename;
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-            assert(m_ifile.good());
-            assert(m_ofile.good());
+            if (ivb.is_open()) { // a closed buffer has no file to take over
+                ivb.m_ifile.close();
+                ivb.m_ofile.close();
+                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                assert(m_ifile.good());
+                assert(m_ofile.good());
+            }
             // assign the values of ivb to this
             m_buffer = (int_vector<t_width>&&)ivb.m_buffer;
             m_need_to_write = ivb.m_need_to_write;
@@ -372,19 +376,24 @@ class int_vector_buffer
         void swap(int_vector_buffer<t_width>& ivb)
         {
             if (this != &ivb) {
+                bool open = is_open(), ivb_open = ivb.is_open();
                 m_ifile.close();
                 ivb.m_ifile.close();
                 m_ofile.close();
                 ivb.m_ofile.close();
                 std::swap(m_filename, ivb.m_filename);
-                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-                assert(m_ifile.good());
-                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-                assert(m_ofile.good());
-                ivb.m_ifile.open(ivb.m_filename, std::ios::in|std::ios::binary);
-                assert(ivb.m_ifile.good());
-                ivb.m_ofile.open(ivb.m_filename, std::ios::in|std::ios::out|std::ios::binary);
-                assert(ivb.m_ofile.good());
+                if (ivb_open) {
+                    m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                    assert(m_ifile.good());
+                    m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                    assert(m_ofile.good());
+                }
+                if (open) {
+                    ivb.m_ifile.open(ivb.m_filename, std::ios::in|std::ios::binary);
+                    assert(ivb.m_ifile.good());
+                    ivb.m_ofile.open(ivb.m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                    assert(ivb.m_ofile.good());
+                }
                 std::swap(m_buffer, ivb.m_buffer);
                 std::swap(m_need_to_write, ivb.m_need_to_write);
                 std::swap(m_offset, ivb.m_offset);
-- 
2.43.0


From 1ca4624de49be86a66fd91bb37afd7c2d29f8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 67/91] fix: subtracting from an iterator of int_vector_buffer
 returned a reference to a local

---
 include/sdsl/int_vector_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index c4e4ad7..713c703 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -558,7 +558,7 @@ class int_vector_buffer
                     return it += i;
                 }
 
-                iterator& operator-(difference_type i) const
+                iterator operator-(difference_type i) const
                 {
                     iterator it = *this;
                     return it -= i;
-- 
2.43.0


From 3eb259669750753da34a4c80d83e07a52390b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 68/91] fix: moving an int_vector_mapper lost its mapping and
 its file was never finalized

---
 include/sdsl/int_vector_mapper.hpp | 34 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..a80c2c2 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -29,7 +29,18 @@ class int_vector_mapper
         int m_fd = -1;
         int_vector<t_width> m_wrapper;
         std::string m_file_name;
-        bool m_delete_on_close;
+        bool m_delete_on_close = false;
+
+        void swap(int_vector_mapper& ivm)
+        {
+            std::swap(m_mapped_data, ivm.m_mapped_data);
+            std::swap(m_file_size_bytes, ivm.m_file_size_bytes);
+            std::swap(m_data_offset, ivm.m_data_offset);
+            std::swap(m_fd, ivm.m_fd);
+            m_wrapper.swap(ivm.m_wrapper);
+            std::swap(m_file_name, ivm.m_file_name);
+            std::swap(m_delete_on_close, ivm.m_delete_on_close);
+        }
     public:
         int_vector_mapper() = delete;
         int_vector_mapper(const int_vector_mapper&) = delete;
@@ -97,27 +108,12 @@ class int_vector_mapper
         }
         int_vector_mapper(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            swap(ivm);
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            int_vector_mapper tmp(std::move(ivm));
+            swap(tmp); // the destructor of tmp finalizes the old mapping
             return (*this);
         }
         int_vector_mapper(const std::string& key,const cache_config& config)
-- 
2.43.0


From 82e0208734b85576376407cc075e46ca28e5c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 69/91] fix: a plain file mapped by int_vector_mapper was
 padded to a multiple of 8 bytes

---
 include/sdsl/int_vector_mapper.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index a80c2c2..b4328ad 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -41,6 +41,12 @@ class int_vector_mapper
             std::swap(m_file_name, ivm.m_file_name);
             std::swap(m_delete_on_close, ivm.m_delete_on_close);
         }
+
+        //! Bytes of data in the file; only the data of an int_vector ends with a full word.
+        size_type data_size_in_bytes(const size_type bit_size) const
+        {
+            return m_data_offset ? ((bit_size + 63) >> 6) << 3 : (bit_size + 7) >> 3;
+        }
     public:
         int_vector_mapper() = delete;
         int_vector_mapper(const int_vector_mapper&) = delete;
@@ -76,10 +82,9 @@ class int_vector_mapper
 
                 if (t_mode&std::ios_base::out) {
                     // do we have to truncate?
-                    size_type current_bit_size = m_wrapper.m_size;
-                    size_type data_size_in_bytes = ((current_bit_size + 63) >> 6) << 3;
-                    if (m_file_size_bytes != data_size_in_bytes + m_data_offset) {
-                        int tret = memory_manager::truncate_file_mmap(m_fd, data_size_in_bytes + m_data_offset);
+                    size_type new_size_in_bytes = data_size_in_bytes(m_wrapper.m_size);
+                    if (m_file_size_bytes != new_size_in_bytes + m_data_offset) {
+                        int tret = memory_manager::truncate_file_mmap(m_fd, new_size_in_bytes + m_data_offset);
                         if (tret == -1) {
                             std::string truncate_error
                                 = std::string("int_vector_mapper: truncate error. ")
@@ -196,7 +201,7 @@ class int_vector_mapper
         void bit_resize(const size_type bit_size)
         {
             static_assert(t_mode & std::ios_base::out,"int_vector_mapper: must be opened in in+out mode for 'bit_resize'");
-            size_type new_size_in_bytes = ((bit_size + 63) >> 6) << 3;
+            size_type new_size_in_bytes = data_size_in_bytes(bit_size);
             if (m_file_size_bytes != new_size_in_bytes + m_data_offset) {
                 if (m_mapped_data) {
                     auto ret = memory_manager::mem_unmap(m_mapped_data,m_file_size_bytes);
-- 
2.43.0


From 00c0e487bfbee4539dbeed7b2e130ec493940c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 70/91] fix: an empty plain file could not be mapped

---
 include/sdsl/memory_management.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 0270196..71f4153 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -424,6 +424,7 @@ class memory_manager
             return map;
 #else
             void* map = nullptr;
+            file_size = std::max(file_size, (uint64_t)1); // an empty mapping is not possible
             if (!(mode&std::ios_base::out)) map = mmap(NULL,file_size,PROT_READ,MAP_SHARED,fd, 0);
             else map = mmap(NULL,file_size,PROT_READ | PROT_WRITE,MAP_SHARED,fd, 0);
             if(map == MAP_FAILED) map = nullptr; // unify windows and unix error behaviour
@@ -437,7 +438,7 @@ class memory_manager
             if (UnmapViewOfFile(addr)) return 0;
             return -1;
 #else
-            return munmap(addr, size);
+            return munmap(addr, std::max(size, (uint64_t)1));
 #endif
             return -1;
         }
-- 
2.43.0


From af271d6f4b08b198bfb2d06b23f9671964d90c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 71/91] fix: comparing an int_vector_mapper with a container
 ignored their sizes

---
 include/sdsl/int_vector_mapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index b4328ad..da34a33 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -311,7 +311,8 @@ class int_vector_mapper
         template<class container>
         bool operator==(const container& v) const
         {
-            return std::equal(begin(), end(), v.begin());
+            return size() == (size_type)std::distance(v.begin(), v.end())
+                   and std::equal(begin(), end(), v.begin());
         }
         bool operator==(const int_vector<t_width>& v) const
         {
-- 
2.43.0


From f790d886317822f8e958d4c6ed02d2ba9f3c4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 72/91] fix: construct_im left its input in memory if the
 construction was refused

---
 include/sdsl/construct.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index f6ab84b..52f0c96 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -68,7 +68,12 @@ void construct_im(t_index& idx, t_data data, uint8_t num_bytes=0)
 {
     std::string tmp_file = ram_file_name(util::to_string(util::pid())+"_"+util::to_string(util::id()));
     store_to_file(data, tmp_file);
-    construct(idx, tmp_file, num_bytes);
+    try {
+        construct(idx, tmp_file, num_bytes);
+    } catch (...) {
+        ram_fs::remove(tmp_file);
+        throw;
+    }
     ram_fs::remove(tmp_file);
 }
 
-- 
2.43.0


From 844f11ac3001cdbf9f282f0109d0270f514a1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 73/91] fix: dirname of a file in a directory of the in-memory
 file system was a directory on disk

---
 lib/util.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index 1fe546d..1be15a6 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -70,10 +70,9 @@ std::string dirname(std::string file)
     free(c);
     if (ram_file) {
         if ("." == res) {
-            res = ram_file_name("");
-        } else if ("/" ==res) {
-            res = ram_file_name(res);
+            res = "";
         }
+        res = "@" + res;
     }
     return res;
 }
-- 
2.43.0


From 313f71934d8479aeb1e909765c5822ff887312ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 74/91] fix: storing a string to a file that cannot be opened
 was reported as success

---
 lib/io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index 01b7dc3..93522ed 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,8 +13,8 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
@@ -28,8 +28,8 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
@@ -44,8 +44,8 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
-- 
2.43.0


From e7187abba32048e64489e1109ad7dce446e19c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 75/91] fix: load_vector_from_file reported success for a
 missing file

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 50c4a6c..e8d58a5 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -201,7 +201,7 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
             v.resize(0);
-            return true;
+            return (bool)isfstream(file, std::ios::in | std::ios::binary); // empty or missing
         }
         if (file_size % num_bytes != 0) {
             throw std::logic_error("file size "+util::to_string(file_size)+" of \""+ file
-- 
2.43.0


From 25bedc0bfff752fec1f97435222c53f571731a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 76/91] fix: the check file of a fixed width vector stored as
 variable width had the hash of the wrong class

---
 include/sdsl/io.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index e8d58a5..5f1f636 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -722,7 +722,11 @@ bool store_to_checked_file(const int_vector<t_width>& v, const std::string& file
             std::cerr<<"INFO: store_to_checked_file: `"<<checkfile<<"`"<<std::endl;
         }
     }
-    add_hash(v, out);
+    if (write_fixed_as_variable) {
+        add_hash(int_vector<0*t_width>(), out); // int_vector<0> can read the file
+    } else {
+        add_hash(v, out);
+    }
     out.close();
     return store_to_file(v, file, write_fixed_as_variable);
 }
-- 
2.43.0


From 9ece9c6fad3093ecbf42a32d7f5a6fc47557af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 77/91] fix: the vbyte wrappers of int_vector used functions
 that do not exist

---
 include/sdsl/int_vector_io_wrappers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/int_vector_io_wrappers.hpp b/include/sdsl/int_vector_io_wrappers.hpp
index 7638a91..99265da 100644
--- a/include/sdsl/int_vector_io_wrappers.hpp
+++ b/include/sdsl/int_vector_io_wrappers.hpp
@@ -41,7 +41,7 @@ class int_vector_serialize_vbyte_wrapper
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
             // (1) write size and int_width
-            written_bytes += _sdsl_serialize_size_and_int_width(out, fixedIntWidth, m_vec.width(), m_vec.bit_size());
+            written_bytes += int_vector_type::write_header(m_vec.bit_size(), m_vec.width(), out);
             // (2) write entries in vbyte coding
             for (size_type i=0; i < m_vec.size(); ++i) {
                 value_type ww = m_vec[i];
@@ -78,9 +78,9 @@ class int_vector_load_vbyte_wrapper
 
         void load(std::istream& in) {
             size_type size;
-            typename int_vector_type::int_width_type int_width;
+            uint8_t int_width = fixedIntWidth;
             // (1) read size and int_width
-            int_vector_trait<fixedIntWidth>::read_header(size, int_width, in);
+            int_vector_type::read_header(size, int_width, in);
             // (2) resize the vector
             m_vec.width(int_width);
             m_vec.bit_resize(size);
-- 
2.43.0


From 8f5b7206dac10b1f35c46871187165cca8b8dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 78/91] fix: reallocating a huge page block copied more than
 the old block holds

If the block has to be moved, size is larger than the data of the old block, and
the source could overlap the new block.
---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..4eacdc6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -574,7 +574,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize);
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From 5ee34ad484f9f29b1604a0e95682b3e5dcb10d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 79/91] fix: a free huge page block one byte too small was used

The keys of the free blocks include the free bit.
---
 lib/memory_management.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 4eacdc6..12f55a0 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -438,7 +438,8 @@ hugepage_allocator::find_free_block(size_t size_in_bytes)
     //std::cout << "find_free_block(" << size_in_bytes << ")" << std::endl;
 
     mm_block_t* bptr = nullptr;
-    auto free_block = m_free_large.lower_bound(size_in_bytes);
+    /* the keys are the sizes with the free bit, i.e. odd numbers */
+    auto free_block = m_free_large.lower_bound(ALIGN(size_in_bytes));
     if (free_block != m_free_large.end()) {
         bptr = free_block->second;
         m_free_large.erase(free_block);
-- 
2.43.0


From 03675d54fd9451fbaeb1695f50b6fcfbbd8985be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 80/91] fix: huge page allocations of almost 2^64 bytes
 succeeded

The size plus the overhead of a block overflowed, or was negative.
---
 lib/memory_management.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 12f55a0..f52b790 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -347,7 +347,7 @@ uint8_t*
 hugepage_allocator::hsbrk(size_t size)
 {
     ptrdiff_t left = (ptrdiff_t) m_total_size - (m_top - m_base);
-    if (left < (ptrdiff_t) size) {  // enough space left?
+    if ((size_t) left < size) {  // enough space left?
         throw std::system_error(ENOMEM,std::system_category(),
                                 "hugepage_allocator: not enough hugepage memory available");
     }
@@ -451,6 +451,10 @@ void*
 hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
+    if (size_in_bytes > m_total_size) { // also avoids an overflow below
+        throw std::system_error(ENOMEM,std::system_category(),
+                                "hugepage_allocator: not enough hugepage memory available");
+    }
     mm_block_t* bptr = nullptr;
     if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
-- 
2.43.0


From 89fdc9268bdd16e6c5804c66bd6feebcc4711565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 81/91] fix: reallocating the last huge page block ignored free
 blocks

It was refused if the space behind the block was too small, although there was a
large enough free block in front of it.
---
 lib/memory_management.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index f52b790..f42e92f 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -534,10 +534,15 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
             //std::cout << "no next! -> expand!" << std::endl;
             // we are the last block so we just expand
             blockdatasize = block_getdatasize(bptr);
-            size_t needed = ALIGN(size - blockdatasize);
-            hsbrk(needed);
-            block_update(bptr,UNMASK_SIZE(bptr->size)+needed);
-            return block_data(bptr);
+            size_t left = m_total_size - (m_top - m_base);
+            if (size - blockdatasize <= left && ALIGN(size - blockdatasize) <= left) {
+                size_t needed = ALIGN(size - blockdatasize);
+                hsbrk(needed);
+                block_update(bptr,UNMASK_SIZE(bptr->size)+needed);
+                return block_data(bptr);
+            }
+            /* not enough space behind the block. maybe there is a free block */
+            need_malloc = true;
         } else {
             // we are not the last block
             //std::cout << "try combine next" << std::endl;
-- 
2.43.0


From 19a2a77f450fbf8c2a8df5e2b88ea41e570e63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 82/91] fix: a growing huge page block kept all of the free
 neighbour block

The part which was not needed could not be used until the block was freed.
---
 lib/memory_management.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index f42e92f..dcc60d6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -554,6 +554,8 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
                     remove_from_free_set(next);
                     /* add the size of our block */
                     block_update(bptr,UNMASK_SIZE(bptr->size)+UNMASK_SIZE(next->size));
+                    /* give back what is not needed */
+                    split_block(bptr,size);
                 } else {
                     /* the next block is not enough. we allocate a new one instead */
                     need_malloc = true;
@@ -570,6 +572,8 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
                         block_markused(prev);
                         /* move the data into the previous block */
                         ptr = memmove(block_data(prev),ptr,blockdatasize);
+                        /* give back what is not needed */
+                        split_block(prev,size);
                     } else {
                         /* not enough in the prev block */
                         need_malloc = true;
-- 
2.43.0


From 35e66b110f1ff1612cb452a02334341a7da46706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 83/91] fix: a vector had the new size if resizing it failed

The size was changed before the memory was allocated, so reading, destroying and
accounting the vector used a size which it did not have.
---
 include/sdsl/memory_management.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 71f4153..316fa0c 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -346,7 +346,6 @@ class memory_manager
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
             bool do_realloc = old_size_in_bytes != new_size_in_bytes;
-            v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes.
                 // We need this padding since rank data structures do a memory
@@ -358,6 +357,7 @@ class memory_manager
                 if (allocated_bytes != 0 && v.m_data == nullptr) {
                     throw std::bad_alloc();
                 }
+                v.m_size = size;
                 // update and fill with 0s
                 if (v.bit_size() < v.capacity()) {
                     uint8_t len = (uint8_t)(v.capacity() - v.bit_size());
@@ -370,6 +370,8 @@ class memory_manager
                 if (do_realloc) {
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
+            } else {
+                v.m_size = size;
             }
         }
         template<class t_vec>
-- 
2.43.0


From a50925854026dbe8bbcc4148b690bfcde4a159f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 84/91] fix: a memory event which ended after the log was
 stopped used an empty stack

---
 include/sdsl/memory_management.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 316fa0c..4b0186b 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -69,7 +69,7 @@ class memory_monitor
         struct mm_event_proxy {
             bool add;
             timer::time_point created;
-            mm_event_proxy(const std::string& name, int64_t usage, bool a) : add(a)
+            mm_event_proxy(const std::string& name, int64_t usage, bool a) : add(a), created(timer::now())
             {
                 if (add) {
                     auto& m = the_monitor();
@@ -82,6 +82,10 @@ class memory_monitor
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    // the log may have been stopped or started again in between
+                    if (m.event_stack.empty() || created < m.start_log) {
+                        return;
+                    }
                     auto& cur = m.event_stack.top();
                     auto cur_time = timer::now();
                     cur.allocations.emplace_back(cur_time, m.current_usage);
-- 
2.43.0


From c07789fc374f9da9f94291206d22235ec7561f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 85/91] fix: names of memory events were not escaped in the
 JSON log

---
 lib/memory_management.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index dcc60d6..baebd7a 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -7,9 +7,29 @@ using namespace std::chrono;
 namespace sdsl
 {
 
+// escape the characters which cannot be part of a JSON string
+std::string escape_json(const std::string& s)
+{
+    const char* hex = "0123456789abcdef";
+    std::string res;
+    for (char c : s) {
+        if (c == '"' || c == '\\') {
+            res += '\\';
+            res += c;
+        } else if ((unsigned char)c < 0x20) {
+            res += "\\u00";
+            res += hex[(unsigned char)c >> 4];
+            res += hex[(unsigned char)c & 0xF];
+        } else {
+            res += c;
+        }
+    }
+    return res;
+}
+
 void output_event_json(std::ostream& out,const memory_monitor::mm_event& ev,const memory_monitor& m)
 {
-    out << "\t\t" << "\"name\" : " << "\"" << ev.name << "\",\n";
+    out << "\t\t" << "\"name\" : " << "\"" << escape_json(ev.name) << "\",\n";
     out << "\t\t" << "\"usage\" : [" << "\n";
     for (size_t j=0; j<ev.allocations.size(); j++)  {
         out << "\t\t\t[" << duration_cast<milliseconds>(ev.allocations[j].timestamp-m.start_log).count()
-- 
2.43.0


From 91b452466dca01035dad65d04ed52e2827d77485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:49 +0000
Subject: [PATCH 86/91] fix: csXprintf's %wT printed w characters although the
 text is shorter

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 5f1f636..f1572be 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -512,7 +512,7 @@ csXprintf(std::ostream& out, const std::string& format,
                         res[i] += util::to_string(csa.bwt[i],w);
                     }
                     break;
-                case 'T': for (uint64_t k=0; (w>0 and k < w) or(0==w and k < csa.size()); ++k) {
+                case 'T': for (uint64_t k=0; k < csa.size() and (0==w or k < w); ++k) {
                         if (0 == csa.text[(csa[i]+k)%csa.size()]) {
                             res[i] += util::to_string(sentinel, W);
                         } else {
-- 
2.43.0


From 1dfdf3c288fcd3b9a1c522a96011d2ef0a23a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 87/91] fix: rank(0) in a sd_vector built from an empty range
 read through a null pointer

---
 include/sdsl/sd_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/sd_vector.hpp b/include/sdsl/sd_vector.hpp
index 627d70d..b0baf22 100644
--- a/include/sdsl/sd_vector.hpp
+++ b/include/sdsl/sd_vector.hpp
@@ -231,6 +231,7 @@ class sd_vector
         sd_vector(const t_itr begin,const t_itr end)
         {
             if (begin == end) {
+                *this = sd_vector(bit_vector());
                 return;
             }
             if (! std::is_sorted(begin,end)) {
-- 
2.43.0


From 2f6beed60ae9a1b06efdeb2e6dec97da257e5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 88/91] fix: containers' iterators had the wrong reference
 type, reverse iterators did not compile

---
 include/sdsl/int_vector.hpp | 1 +
 include/sdsl/iterators.hpp  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 9d8de37..919c61a 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1054,6 +1054,7 @@ class int_vector_const_iterator : public int_vector_iterator_base<t_int_vector>
     public:
 
         typedef typename t_int_vector::value_type        const_reference;
+        typedef const_reference                          reference;
         typedef const typename t_int_vector::value_type* pointer;
         typedef int_vector_const_iterator                const_iterator;
         typedef typename t_int_vector::size_type         size_type;
diff --git a/include/sdsl/iterators.hpp b/include/sdsl/iterators.hpp
index 86d2fe4..03d5766 100644
--- a/include/sdsl/iterators.hpp
+++ b/include/sdsl/iterators.hpp
@@ -30,7 +30,8 @@ namespace sdsl
 /*! \tparam t_rac Type of random access container.
  */
 template<class t_rac>
-class random_access_const_iterator: public std::iterator<std::random_access_iterator_tag, typename t_rac::value_type, typename t_rac::difference_type>
+class random_access_const_iterator: public std::iterator<std::random_access_iterator_tag, typename t_rac::value_type, typename t_rac::difference_type,
+    const typename t_rac::value_type*, const typename t_rac::value_type>
 {
     public:
         typedef const typename t_rac::value_type  const_reference;
-- 
2.43.0


From d0ae5c3fecb0bdef9423542a130f23171320802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 89/91] fix: store_to_cache with a type hash registered its
 file under the key without the type, the next type stored under the key
 overwrote or leaked it

---
 include/sdsl/io.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index f1572be..8ba70bc 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -617,14 +617,13 @@ bool load_from_cache(T& v, const std::string& key, const cache_config& config, b
 template<class T>
 bool store_to_cache(const T& v, const std::string& key, cache_config& config, bool add_type_hash=false)
 {
-    std::string file;
+    std::string file_key = key;
     if (add_type_hash) {
-        file = cache_file_name<T>(key, config);
-    } else {
-        file = cache_file_name(key, config);
+        file_key += "_"+util::class_to_hash(T());
     }
+    std::string file = cache_file_name(file_key, config);
     if (store_to_file(v, file)) {
-        config.file_map[std::string(key)] = file;
+        config.file_map[file_key] = file;
         return true;
     } else {
         std::cerr<<"WARNING: store_to_cache: could not store file `"<< file <<"`" << std::endl;
-- 
2.43.0


From f56b3c36fb8689bb54f6751c24a75eeb22f0857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:19 +0000
Subject: [PATCH 90/91] fix: util::id() was not safe to call from several
 threads, temporary files of concurrent constructions could get the same name

---
 include/sdsl/util.hpp | 2 +-
 lib/util.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index f29108d..51f66e1 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -237,7 +237,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index 1be15a6..37820bc 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From 2a5acc608d24a0d29b2ec670acdb949c7579f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 91/91] fix: csa_sada decoded psi into a buffer shared by
 concurrent rank queries

---
 include/sdsl/csa_sada.hpp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 0552afe..22d151a 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -117,7 +117,6 @@ class csa_sada
         isa_sample_type m_isa_sample; // inverse suffix array samples
         alphabet_type   m_alphabet;   // alphabet component
 
-        mutable std::vector<uint64_t> m_psi_buf; // buffer for decoded psi values
 
         void copy(const csa_sada& csa)
         {
@@ -128,13 +127,6 @@ class csa_sada
             m_alphabet   = csa.m_alphabet;
         };
 
-        void create_buffer()
-        {
-            if (enc_vector_type::sample_dens < linear_decode_limit) {
-                m_psi_buf = std::vector<uint64_t>(enc_vector_type::sample_dens+1);
-            }
-        }
-
     public:
         const typename alphabet_type::char2comp_type& char2comp  = m_alphabet.char2comp;
         const typename alphabet_type::comp2char_type& comp2char  = m_alphabet.comp2char;
@@ -152,24 +144,19 @@ class csa_sada
 
 
         //! Default Constructor
-        csa_sada()
-        {
-            create_buffer();
-        }
+        csa_sada() { }
         //! Default Destructor
         ~csa_sada() { }
 
         //! Copy constructor
         csa_sada(const csa_sada& csa)
         {
-            create_buffer();
             copy(csa);
         }
 
         //! Move constructor
         csa_sada(csa_sada&& csa)
         {
-            create_buffer();
             *this = std::move(csa);
         }
 
@@ -324,24 +311,26 @@ class csa_sada
 // TODO: don't use get_inter_sampled_values if t_dens is really
 //       large
                 lower_b = lower_sb*sd;
-                if (0 == m_psi_buf.size()) {
+                if (enc_vector_type::sample_dens >= linear_decode_limit) {
                     upper_b = std::min(upper_sb*sd, C[cc+1]);
                     goto finish;
                 }
-                uint64_t* p = m_psi_buf.data();
+                // buffer for decoded psi values; local, as queries may run concurrently
+                uint64_t psi_buf[(enc_vector_type::sample_dens < linear_decode_limit) ? enc_vector_type::sample_dens+1 : 1];
+                uint64_t* p = psi_buf;
                 // extract the psi values between two samples
                 m_psi.get_inter_sampled_values(lower_sb, p);
-                p = m_psi_buf.data();
+                p = psi_buf;
                 uint64_t smpl = m_psi.sample(lower_sb);
                 // handle border cases
                 if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
-                    m_psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
+                    psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
                 else
-                    m_psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
+                    psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
                 // search the result linear
                 while ((*p++)+smpl < i);
 
-                return p-1-m_psi_buf.data() + lower_b - C[cc];
+                return p-1-psi_buf + lower_b - C[cc];
             } else { // lower_b == (m_C[cc]+sd-1)/sd and lower_sb < upper_sb
                 if (m_psi.sample(lower_sb) >= i) {
                     lower_b = C[cc];
@@ -395,7 +384,6 @@ finish:
 template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_strat, class t_isa, class t_alphabet_strat>
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
-    create_buffer();
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
         return;
     }
-- 
2.43.0

