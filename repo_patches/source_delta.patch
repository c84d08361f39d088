From 4e95076fcbc7a2bc5271185a12d74a7c717c7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 01/72] fix: WidthMask(64) shifted by the word width and
 returned 0

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..9f033a9 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (mask_type(1) << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From b6dd6abda87def599d53caf6bd4172055f31a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 02/72] fix: portable popcnt32 miscounted dense words

---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 9f033a9..21439a5 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Full;
+    return 0x01010101*x >> 24;
 #endif
 }
 
-- 
2.43.0


From 9be3c58fb2f9d6d0e0640d17ef946339d2bef31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 03/72] fix: portable 32-bit clz was off by 32

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 21439a5..1cca6be 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From 65588d17bc3ecfa32614862c25c2f189c915f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/72] fix: clz256 counted from the wrong end

---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..4d4ce17 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3 - i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From 273a649aa8f577901242f62bb33184b0d090a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 05/72] fix: sel did not compile with BMI2 (ambiguous call of
 ctz)

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 1cca6be..0406771 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(uint64_t(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From 3d27c72dc8409d6746f531a95c275f9ec95d5069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 06/72] fix: xor_map_intrinsics did not compile with AVX-512
 (nonexistent intrinsics)

---
 include/sim_ds/bit_util256.hpp | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 4d4ce17..a73401e 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -146,18 +146,6 @@ __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x0F0F0F0F0F0F0F0F)), 4),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xF0F0F0F0F0F0F0F0)), 4));
     }
-#if defined(__AVX512VL__) && defined(__AVX512F__)
-    if (mask & 8)
-        x = _mm256_permutexvar_epi8(_mm256_set_epi8(30, 31, 28, 29, 26, 27, 24, 25, 22, 23, 20, 21, 18, 19, 16, 17, 14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1), x);
-    if (mask & 16)
-        x = _mm256_permutexvar_epi16(_mm256_set_epi16(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1), x);
-    if (mask & 32)
-        x = _mm256_permutexvar_epi32(_mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1), x);
-    if (mask & 64)
-        x = _mm256_permutexvar_epi64(_mm256_set_epi64(2, 3, 0, 1), x);
-    if (mask & 128)
-        x = _mm256_permutexvar_epi128(_mm256_set_epi128(0, 1), x);
-#else
     if (mask & 8)
         x = _mm256_or_si256(_mm256_srli_epi16(x, 8), _mm256_slli_epi16(x, 8));
     if (mask & 16)
@@ -168,7 +156,6 @@ __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
         x = _mm256_permute4x64_epi64(x, 0b10110001);
     if (mask & 128)
         x = _mm256_permute2x128_si256(x, x, 0x21);
-#endif
     return x;
 }
 #endif
-- 
2.43.0


From 17532a108ae06097fcab01a890b71fb42cad0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 07/72] fix: swap_pi8/16 used MMX registers without emms,
 corrupting later x87 arithmetic

---
 include/sim_ds/bit_util.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 0406771..aa9c50c 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -553,21 +553,11 @@ inline uint64_t swap_pi4(uint64_t x) {
 }
 
 inline uint64_t swap_pi8(uint64_t x) {
-#ifdef __MMX__
-    auto xx = (__m64) x;
-    return (uint64_t) _mm_or_si64(_mm_slli_pi16(xx, 8), _mm_srli_pi16(xx, 8));
-#else
     return ((x & 0xFF00FF00FF00FF00) >> 8) | ((x & 0x00FF00FF00FF00FF) << 8);
-#endif
 }
 
 inline uint64_t swap_pi16(uint64_t x) {
-#ifdef __MMX__
-    auto xx = (__m64) x;
-    return (uint64_t) _mm_or_si64(_mm_slli_pi32(xx, 16), _mm_srli_pi32(xx, 16));
-#else
     return ((x & 0xFFFF0000FFFF0000) >> 16) | ((x & 0x0000FFFF0000FFFF) << 16);
-#endif
 }
 
 inline uint64_t swap_pi32(uint64_t x) {
-- 
2.43.0


From 0b6ac14d9f965ebe596ab4c3642e28e2170ec2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 08/72] fix: SizeFitsInUnits never ended when the value used
 its top unit

---
 include/sim_ds/calc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..135236f 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -14,8 +14,8 @@ namespace sim_ds::calc {
 
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
-    size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    size_t size = 1;
+    while (size * unit < 64 && static_cast<bool>(value >> (size * unit))) size++;
     return size;
 }
 
-- 
2.43.0


From e25e87c7d76ed19135ec47d23e94cfce026dbdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 09/72] fix: split_positions_optimized_for_dac wrote one
 element past its split list

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 135236f..172c66b 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From 130e7d66d9a49db1e46d1fe56251a321974b3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 10/72] fix: write_vec indexed an empty vector

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..3892803 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -109,7 +109,7 @@ inline void write_val(const T& val, std::ostream& os) {
 template<typename T, class A>
 inline void write_vec(const std::vector<T, A> &vec, std::ostream &os) {
     write_val(vec.size(), os);
-    os.write(reinterpret_cast<const char*>(&vec[0]), sizeof(T) * vec.size());
+    os.write(reinterpret_cast<const char*>(vec.data()), sizeof(T) * vec.size());
 }
 
 inline void write_string(const std::string &str, std::ostream &os) {
-- 
2.43.0


From 60724d3774a54d32badcaae2699e8fd8c54b3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 11/72] fix: recursive() kept a reference to its own parameter
 and dropped the result

---
 include/sim_ds/basic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index 3892803..986c322 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -125,8 +125,8 @@ inline size_t size_vec(const std::vector<T, A>& vec) {
 
 template <class Function>
 auto recursive(Function rec) {
-    return [&rec](auto&&... args) {
-        rec(rec, std::forward<decltype(args)>(args)...);
+    return [rec](auto&&... args) {
+        return rec(rec, std::forward<decltype(args)>(args)...);
     };
 }
 
-- 
2.43.0


From b62d2d57d4c183cbecde6b73cc0b83960420dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 12/72] fix: BitIterator post-increment, const conversion and
 address-of did not compile

---
 include/sim_ds/BitReference.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 82f78bb..7817360 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -76,7 +76,7 @@ public:
     }
     
     BitIterator<_Bv, true> operator&() const {
-        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(__ctz(mask_)));
+        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(bit_util::ctz(mask_)));
     }
     
 private:
@@ -129,7 +129,7 @@ public:
     
     BitIterator operator++(int) {
         BitIterator itr = *this;
-        ++this;
+        ++*this;
         return itr;
     }
     
@@ -145,7 +145,7 @@ public:
     
     BitIterator operator--(int) {
         BitIterator itr = *this;
-        --this;
+        --*this;
         return itr;
     }
     
@@ -199,6 +199,9 @@ private:
     BitIterator(_word_pointer pointer, size_t ctz) : seg_(pointer), ctz_(ctz) {}
     
     friend typename _Bv::_self;
+    friend class BitReference<_Bv>;
+    friend class BitConstReference<_Bv>;
+    friend class BitIterator<_Bv, true>;
     
 };
 
-- 
2.43.0


From b78b93fccd73cb6bac6bb3a6d0bf79356cfeb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 13/72] fix: BitVector(int) picked the container constructor
 and did not compile

---
 include/sim_ds/BitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/BitVector.hpp b/include/sim_ds/BitVector.hpp
index 1891ce1..5822418 100644
--- a/include/sim_ds/BitVector.hpp
+++ b/include/sim_ds/BitVector.hpp
@@ -164,7 +164,7 @@ public:
         std::transform(bits.begin(), bits.end(), _base::_make_iter(0), [](bool b) {return b;});
     }
 
-    template <typename BitArray>
+    template <typename BitArray, typename = decltype(std::declval<const BitArray&>().size())>
     BitVector(const BitArray& bits) : _base(bits.size()) {
         std::transform(bits.begin(), bits.end(), _base::_make_iter(0), [](auto b) {return bool(b);});
     }
-- 
2.43.0


From 35caad362d682f97d05ba93051f69f7797c2e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 14/72] fix: SuccinctBitVector::rank(size()) read one word past
 the bits

---
 include/sim_ds/SuccinctBitVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..800d0b4 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -131,9 +131,10 @@ template <bool UseSelect>
 size_t
 SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
+    size_t tail = index % 64 == 0 ? 0 : bit_util::cnt(bits_.data()[index/64], index%64); // bits_ may end at index
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            tail);
 }
 
 
-- 
2.43.0


From 52ecf09e5c6b81eb800e26822eb1a0e209251b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 15/72] fix: SuccinctBitVector::select read past its tips when
 the last block holds the 512th one

---
 include/sim_ds/SuccinctBitVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 800d0b4..8462dc9 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -153,7 +153,8 @@ SuccinctBitVector<true>::select(size_t index) const {
     if (select_tips_.size() != 0) {
         auto select_tip_index = i / 512;
         left = select_tips_[select_tip_index];
-        right = select_tips_[select_tip_index + 1] + 1;
+        if (select_tip_index + 1 < select_tips_.size())
+            right = select_tips_[select_tip_index + 1] + 1;
     }
     while (left + 1 < right) {
         const auto center = (left + right) / 2;
-- 
2.43.0


From ed05cfb0a1847073a80fa1cf9ef0896bfb3067e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 16/72] fix: rank(0) of a default-constructed SuccinctBitVector
 read an empty block table

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 8462dc9..4eb5af6 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -25,7 +25,7 @@ private:
     std::vector<uint32_t> select_tips_;
     
 public:
-    SuccinctBitVector() = default;
+    SuccinctBitVector() : basic_block_(2, 0) {}
     
     explicit SuccinctBitVector(BitVector&& bits);
     
-- 
2.43.0


From 2f65c08360f1c20741982b63696489f4e6fb300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 17/72] fix: FitVector of width 0 dereferenced a null word and
 reserved all memory

---
 include/sim_ds/FitVector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 50d271a..48304fe 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -125,7 +125,7 @@ public:
     size_t unit_width() const { return bits_per_element_; }
     
     void resize(size_t size) {
-        storage_.resize(size == 0 or bits_per_element_ == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        storage_.resize(word_size(size));
         size_ = size;
     }
     
@@ -143,7 +143,7 @@ public:
     }
     
     void reserve(size_t size) {
-        storage_.reserve(size == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        storage_.reserve(word_size(size));
     }
     
     void push_back(value_type value) {
@@ -166,6 +166,11 @@ public:
     }
     
 private:
+    // Elements of zero width are still read and written through a word.
+    size_t word_size(size_t size) const {
+        return size == 0 ? 0 : bits_per_element_ == 0 ? 1 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1;
+    }
+    
     size_t abs_(size_t index) const {return index * bits_per_element_ / kBitsPerWord;}
     
     size_t rel_(size_t index) const {return index * bits_per_element_ % kBitsPerWord;}
-- 
2.43.0


From 2ef7d77059cd75805b33447b40fbd2387e1326ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 18/72] fix: FitVector::resize exposed stale bits of elements
 removed before

---
 include/sim_ds/FitVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 48304fe..b61df93 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -126,6 +126,8 @@ public:
     
     void resize(size_t size) {
         storage_.resize(word_size(size));
+        if (size < size_ and size * bits_per_element_ % kBitsPerWord > 0) // later growth exposes zeros
+            storage_.back() &= bit_util::WidthMask(size * bits_per_element_ % kBitsPerWord);
         size_ = size;
     }
     
-- 
2.43.0


From 80ebb50054f117062e9396073dd8d5dc69467b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/72] fix: FitVector iterators did not compile and stepped by
 bits instead of elements

---
 include/sim_ds/BitsReference.hpp | 55 +++++++++++++++-----------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/include/sim_ds/BitsReference.hpp b/include/sim_ds/BitsReference.hpp
index 0ce649c..b7dd032 100644
--- a/include/sim_ds/BitsReference.hpp
+++ b/include/sim_ds/BitsReference.hpp
@@ -31,6 +31,7 @@ class BitsReference {
     
     friend typename Sequence::Self;
     friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, false>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -84,6 +85,7 @@ class BitsConstReference {
     const word_type mask_;
     
     friend typename Sequence::Self;
+    friend class BitsIterator<Sequence, true>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -128,24 +130,21 @@ private:
     word_pointer seg_;
     size_t start_;
     
-    const size_t bits_per_entity_;
+    size_t bits_per_entity_;
+    
+    friend class BitsIterator<Sequence, true>;
     
 public:
     BitsIterator() : seg_(nullptr), start_(0), bits_per_entity_(64) {}
     
-    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.offset_), bits_per_entity_(x.bits_per_entity_) {}
+    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.start_), bits_per_entity_(x.bits_per_entity_) {}
     
-    value_type operator*() const {
+    reference operator*() const {
         return reference(seg_, start_, bits_per_entity_, bit_util::WidthMask(bits_per_entity_));
     }
     
     BitsIterator& operator++() {
-        if (start_ == kBitsPerWord - 1) {
-            ++seg_;
-            start_ = 0;
-        } else {
-            ++start_;
-        }
+        return *this += 1;
     }
     
     BitsIterator operator++(int) {
@@ -155,12 +154,7 @@ public:
     }
     
     BitsIterator& operator--() {
-        if (start_ == 0) {
-            --seg_;
-            start_ = kBitsPerWord - 1;
-        } else {
-            --start_;
-        }
+        return *this -= 1;
     }
     
     BitsIterator operator--(int) {
@@ -170,13 +164,11 @@ public:
     }
     
     BitsIterator& operator+=(difference_type difference) {
-        if (difference >= 0) {
-            seg_ += (start_ + difference) / kBitsPerWord;
-        } else {
-            seg_ += static_cast<difference_type>(-difference - kBitsPerWord + start_ + 1) / static_cast<difference_type>(kBitsPerWord);
-        }
-        difference &= kBitsPerWord - 1;
-        start_ = static_cast<size_t>((difference + start_) % kBitsPerWord);
+        constexpr auto word_bits = static_cast<difference_type>(kBitsPerWord);
+        auto bits = static_cast<difference_type>(start_) + difference * static_cast<difference_type>(bits_per_entity_);
+        auto words = (bits >= 0 ? bits : bits - word_bits + 1) / word_bits;
+        seg_ += words;
+        start_ = static_cast<size_t>(bits - words * word_bits);
         return *this;
     }
     
@@ -184,29 +176,32 @@ public:
         return *this += -difference;
     }
     
-    BitsIterator& operator+(difference_type difference) {
+    BitsIterator operator+(difference_type difference) const {
         BitsIterator itr = *this;
         itr += difference;
         return itr;
     }
     
-    BitsIterator& operator-(difference_type difference) {
+    BitsIterator operator-(difference_type difference) const {
         BitsIterator itr = *this;
         itr -= difference;
         return itr;
     }
     
-    friend BitsIterator& operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
+    friend BitsIterator operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
     
-    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {return static_cast<difference_type>(x.seg_ - y.seg_) * kBitsPerWord + static_cast<difference_type>(x.offset_ - y.offset_);}
+    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {
+        auto bits = (x.seg_ - y.seg_) * static_cast<difference_type>(kBitsPerWord) + static_cast<difference_type>(x.start_) - static_cast<difference_type>(y.start_);
+        return bits / static_cast<difference_type>(x.bits_per_entity_);
+    }
     
-    value_type operator[](difference_type pos) const {return *(*this + pos);}
+    reference operator[](difference_type pos) const {return *(*this + pos);}
     
-    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.offset_ == y.offset_;}
+    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.start_ == y.start_;}
     
     friend bool operator!=(const BitsIterator& x, const BitsIterator& y) {return !(x == y);}
     
-    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.offset_ < y.offset_);}
+    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.start_ < y.start_);}
     
     friend bool operator>(const BitsIterator& x, const BitsIterator& y) {return y < x;}
     
@@ -218,6 +213,8 @@ private:
     BitsIterator(word_pointer seg, size_t start, size_t bits_per_entity) : seg_(seg), start_(start), bits_per_entity_(bits_per_entity) {}
     
     friend typename Sequence::Self;
+    friend class BitsReference<Sequence>;
+    friend class BitsConstReference<Sequence>;
     
 };
 
-- 
2.43.0


From 3ec3e3c16c3a8724b80be4cd90bdd4f9bfa2b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 20/72] fix: an empty DacVector had an indeterminate number of
 layers, no size and a stream Read could not follow

---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..0175a66 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -127,7 +127,7 @@ private:
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() : num_layers_(0) {}
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return num_layers() == 0 ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
@@ -246,7 +246,7 @@ public:
 };
 
 template <typename T, typename S>
-DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bit_list) {
+DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bit_list) : DacVector() {
     // Empty vector input return with no works.
     if (vector.empty())
         return;
-- 
2.43.0


From 8c6cfa163e87bf299f7ad6329ffe3b7ddd55183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 21/72] fix: DacVector::ShowStatus read a path of a
 single-layer DacVector

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 0175a66..1b83dc3 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -230,7 +230,7 @@ public:
         os << "size:   " << size_bytes << endl;
         os << "sizeBits/element:   " << (float(size_bytes * 8) / size()) << endl;
         auto bitsSize = 0;
-        for (size_t i = 0; i == 0 || i + 1 < num_layers(); i++)
+        for (size_t i = 0; i + 1 < num_layers(); i++)
             bitsSize += paths_[i].size_in_bytes();
         os << "size bits:   " << bitsSize << endl;
         auto flowSize = 0;
-- 
2.43.0


From 4df7c1147c86672ff4a767ae519d20d2dc051e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 22/72] fix: DacVector read past the length frequencies when
 given units exceed the longest element

---
 include/sim_ds/DacVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 1b83dc3..9303dfd 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -269,6 +269,8 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
         for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
+            if (t >= cf.size()) // no element is this long
+                break;
             layers_[i].reserve(cf[t]);
             if (i < num_layers - 1)
                 paths_src_[i].reserve(cf[t]);
-- 
2.43.0


From c98573665e592f033049fb11280febb6b0582b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 23/72] fix: DacVector with a 64-bit unit shifted by the word
 width

---
 include/sim_ds/DacVector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 9303dfd..4ddcaa0 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -277,10 +277,14 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         }
     }
     
+    // A unit may be as wide as a word.
+    auto shift_right = [](value_type x, size_t width) {
+        return width < layer_type::kBitsPerWord ? x >> width : 0;
+    };
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = shift_right(x, layers_unit_bits_[0]);
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -288,7 +292,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = shift_right(x, unit_bits);
         }
     }
     
-- 
2.43.0


From 936df8ead1027a98b0aec2b91645e14b3c25bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 24/72] fix: Heap::push shifted every element and broke the
 heap order

---
 include/sim_ds/Heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..3467316 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,9 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root() && Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
     }
     
     void pop() {
-- 
2.43.0


From 94b67b3779eab40aed49ae724ee4fe1dff97f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 25/72] fix: HeapSort of an empty range read and swapped around
 it

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..dffb8d5 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (size() > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From f3a21c06d0af097a113826d477ddacd8b6ac9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 26/72] fix: in-place InitializableArray read its chain pointer
 through the element type

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..0e87146 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -97,7 +97,7 @@ public:
             return k != kNoneBlock ? init_v_ : a_[i];
         } else { // Written Chained Area
             if (k != kNoneBlock) {
-                return i%2==0 ? a_[a_[i]+1] : a_[i];
+                return i%2==0 ? a_[2*k+1] : a_[i];
             } else {
                 return init_v_;
             }
-- 
2.43.0


From 4309598277d1eae43f0a82ece78274007cc2faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 27/72] fix: in-place InitializableArray iterators and 64-bit
 elements did not compile

---
 include/sim_ds/InitializableArray.hpp | 42 +++++++++++++++++----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 0e87146..910f620 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -71,7 +71,7 @@ class _InitializableArray;
 
 template <typename T, size_t Size>
 using InitializableArray = _InitializableArray<T, Size,
-    (1ull<<(std::numeric_limits<T>::digits)) >= (Size+(Size%2))>;
+    (std::numeric_limits<T>::digits >= 64 || (1ull<<(std::numeric_limits<T>::digits%64)) >= (Size+(Size%2)))>;
 
 
 // In-Place Initializable Arrays for a Special Case
@@ -265,37 +265,49 @@ public:
     
 private:
     template <bool IsConst>
-    class _iterator : public std::iterator<std::random_access_iterator_tag, T> {
-        using _base = std::iterator<std::random_access_iterator_tag, T>;
+    class _iterator {
     public:
-        using ptrdiff_t = typename _base::ptrdiff_t;
-        using reference_type = std::conditional_t<IsConst, const_reference, reference>;
+        using iterator_category = std::random_access_iterator_tag;
+        using value_type = T;
+        using difference_type = std::ptrdiff_t;
+        using reference = std::conditional_t<IsConst, const_reference, typename _InitializableArray::reference>;
+        using pointer = void;
+        using reference_type = reference;
     private:
-        const _InitializableArray &arr_;
+        using array_type = std::conditional_t<IsConst, const _InitializableArray, _InitializableArray>;
+        array_type *arr_;
         size_t i_;
         friend class _InitializableArray;
-        _iterator(const _InitializableArray &arr, size_t i) : arr_(arr), i_(i) {}
+        _iterator(array_type &arr, size_t i) : arr_(&arr), i_(i) {}
     public:
-        reference_type operator*() const { return reference_type(arr_, i_); }
+        reference_type operator*() const { return reference_type(*arr_, i_); }
+        reference_type operator[](difference_type x) const { return *(*this + x); }
         _iterator& operator++() { ++i_; return *this; }
         _iterator operator++(int) { auto c = *this; ++(*this); return c; }
         _iterator& operator--() { --i_; return *this; }
         _iterator operator--(int) { auto c = *this; --(*this); return c; }
-        _iterator operator+(ptrdiff_t x) const { return _iterator(arr_, i_ + x); }
+        _iterator operator+(ptrdiff_t x) const { return _iterator(*arr_, i_ + x); }
         _iterator& operator+=(ptrdiff_t x) { return *this = *this + x; }
         _iterator operator-(ptrdiff_t x) const { return *this + -x; }
         _iterator& operator-=(ptrdiff_t x) { return *this = *this - x; }
+        difference_type operator-(const _iterator &x) const { return difference_type(i_) - difference_type(x.i_); }
+        bool operator==(const _iterator &x) const { return i_ == x.i_; }
+        bool operator!=(const _iterator &x) const { return i_ != x.i_; }
+        bool operator<(const _iterator &x) const { return i_ < x.i_; }
+        bool operator>(const _iterator &x) const { return i_ > x.i_; }
+        bool operator<=(const _iterator &x) const { return i_ <= x.i_; }
+        bool operator>=(const _iterator &x) const { return i_ >= x.i_; }
     };
 public:
     using const_iterator = _iterator<true>;
     using iterator = _iterator<false>;
     
-    const_iterator begin() const { return _iterator(*this, 0); }
-    const_iterator end() const { return _iterator(*this, Size); }
-    iterator begin() { return _iterator(*this, 0); }
-    iterator end() { return _iterator(*this, Size); }
-    const_iterator cbegin() const { return _iterator(*this, 0); }
-    const_iterator cend() const { return _iterator(*this, Size); }
+    const_iterator begin() const { return const_iterator(*this, 0); }
+    const_iterator end() const { return const_iterator(*this, Size); }
+    iterator begin() { return iterator(*this, 0); }
+    iterator end() { return iterator(*this, Size); }
+    const_iterator cbegin() const { return const_iterator(*this, 0); }
+    const_iterator cend() const { return const_iterator(*this, Size); }
     
 };
 
-- 
2.43.0


From 2d5c447dedc213320870f32cd2d074aa1ea4c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 28/72] fix: MultipleVector::set_element_sizes kept the
 previous elements

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..dfc3326 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -238,6 +238,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From 4e7ef87b892b04daa6e25f59153d800db6f7458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 29/72] fix: MultipleVector block assignment flowed off its end
 without returning

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index dfc3326..4aa36fd 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From c548977761a4010a5a203724c1cffdce19acef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 30/72] fix: MultipleVector set_at shifted a narrow value by
 more than its width

---
 include/sim_ds/MultipleVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 4aa36fd..74ed94b 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -113,7 +113,7 @@ private:
         auto relative_pointer = pointer_ + element_table_[id].pos;
         auto width = element_table_[id].size;
         for (size_t i = 0; i < width; i++)
-            *(relative_pointer + i) = static_cast<storage_type>(value >> (i * kBitsPerWord));
+            *(relative_pointer + i) = static_cast<storage_type>(static_cast<id_type>(value) >> (i * kBitsPerWord));
         
         return value;
     }
-- 
2.43.0


From 5bfe6dc0e8a0c7fade6091e86e465637d07db965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 31/72] fix: WaveletTree::rank(c, i) asserted that element i is
 c

---
 include/sim_ds/WaveletTree.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..3d183e9 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -85,7 +85,6 @@ public:
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
             auto bit = (c >> (height_ - 1 - depth)) & 1;
-            assert(bit == cbv[idx]);
             idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);
             id = (id << 1) | bit;
         }
-- 
2.43.0


From 2a434da5bea92d4c5117b77b5e4523a25066af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 32/72] fix: WaveletTree::rank(c, i) ranked another symbol when
 c is beyond the alphabet

---
 include/sim_ds/WaveletTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 3d183e9..8d262df 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -81,6 +81,8 @@ public:
     }
     
     size_t rank(uint8_t c, size_t index) const {
+        if (c >> height_) // beyond the alphabet
+            return 0;
         size_t idx = index;
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
-- 
2.43.0


From fa622fac21a88eaf56577a906e090d32a04a7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 33/72] fix: WaveletTree of an empty vector dereferenced its
 end

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 8d262df..86c0172 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -29,7 +29,7 @@ private:
 public:
     template <typename T>
     WaveletTree(const std::vector<T>& vec) {
-        size_t max_char = *std::max_element(vec.begin(), vec.end());
+        size_t max_char = vec.empty() ? 0 : *std::max_element(vec.begin(), vec.end());
         leafs_ = max_char + 1;
         
         auto height = calc::SizeFitsInBits(max_char);
-- 
2.43.0


From cf38cccd2f757ccefd167f8aefad5e733de5f044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 34/72] fix: WaveletTree::Read kept the number of nodes of the
 previous tree

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 86c0172..fd9c3af 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -129,6 +129,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((1ull << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From c17b34e26b2aaa4b71690a7da2396c50cfb0a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 35/72] fix: MultiplyHash of the default width 64 read past
 PRIME_TABLE

---
 include/sim_ds/BijectiveHash.hpp | 313 ++++++++++++++++---------------
 1 file changed, 157 insertions(+), 156 deletions(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a203b30 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -1,157 +1,158 @@
-#ifndef _SIM_DS_BIJECTIVE_HASH_
-#define _SIM_DS_BIJECTIVE_HASH_
-
-#include <cstdint>
-
-namespace sim_ds {
-
-class Xorshift {
-private:
-    unsigned shifts_;
-
-public:
-    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x ^ (x >> (shifts_+K)));
-        return x;
-    }
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        return hash<K>(x);
-    }
-
-};
-
-constexpr uint64_t PRIME_TABLE[][2][3] = {
-    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
-    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
-    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
-    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
-    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
-    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
-    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
-    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
-    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
-    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
-    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
-    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
-    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
-    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
-    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
-    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
-    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
-    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
-    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
-    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
-    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
-    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
-    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
-    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
-    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
-    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
-    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
-    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
-    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
-    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
-    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
-    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
-    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
-    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
-    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
-    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
-    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
-    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
-    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
-    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
-    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
-    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
-    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
-    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
-    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
-    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
-    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
-    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
-    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
-    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
-    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
-    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
-    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
-    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
-    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
-    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
-    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
-    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
-    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
-    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
-    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
-    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
-    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
-};
-
-class MultiplyHash {
-private:
-    unsigned width_;
-    uint64_t mask_;
-public:
-    explicit MultiplyHash(unsigned width=64) :
-        width_(width),
-        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
-        return x;
-    }
-};
-
-class SplitMixHash {
-private:
-    Xorshift xorshift_;
-    MultiplyHash multiply_hash_;
-
-public:
-    explicit SplitMixHash(unsigned width=64) :
-        xorshift_(width), multiply_hash_(width) {}
-
-    uint64_t hash(uint64_t x) const {
-        x = hash_<0>(x);
-        x = hash_<1>(x);
-        x = hash_<2>(x);
-        return x;
-    }
-
-    uint64_t ihash(uint64_t x) const {
-        x = ihash_<2>(x);
-        x = ihash_<1>(x);
-        x = ihash_<0>(x);
-        return x;
-    }
-
-private:
-    template<unsigned K>
-    uint64_t hash_(uint64_t x) const {
-        x = xorshift_.hash<K>(x);
-        x = multiply_hash_.hash<K>(x);
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash_(uint64_t x) const {
-        x = multiply_hash_.ihash<K>(x);
-        x = xorshift_.ihash<K>(x);
-        return x;
-    }
-};
-
-}
-
+#ifndef _SIM_DS_BIJECTIVE_HASH_
+#define _SIM_DS_BIJECTIVE_HASH_
+
+#include <cstdint>
+
+namespace sim_ds {
+
+class Xorshift {
+private:
+    unsigned shifts_;
+
+public:
+    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x ^ (x >> (shifts_+K)));
+        return x;
+    }
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        return hash<K>(x);
+    }
+
+};
+
+constexpr uint64_t PRIME_TABLE[][2][3] = {
+    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
+    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
+    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
+    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
+    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
+    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
+    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
+    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
+    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
+    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
+    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
+    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
+    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
+    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
+    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
+    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
+    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
+    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
+    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
+    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
+    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
+    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
+    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
+    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
+    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
+    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
+    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
+    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
+    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
+    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
+    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
+    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
+    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
+    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
+    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
+    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
+    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
+    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
+    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
+    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
+    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
+    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
+    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
+    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
+    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
+    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
+    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
+    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
+    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
+    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
+    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
+    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
+    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
+    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
+    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
+    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
+    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
+    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
+    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
+    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
+    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
+    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
+    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
+};
+
+class MultiplyHash {
+private:
+    unsigned width_;
+    uint64_t mask_;
+public:
+    explicit MultiplyHash(unsigned width=64) :
+        width_(width),
+        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
+        return x;
+    }
+};
+
+class SplitMixHash {
+private:
+    Xorshift xorshift_;
+    MultiplyHash multiply_hash_;
+
+public:
+    explicit SplitMixHash(unsigned width=64) :
+        xorshift_(width), multiply_hash_(width) {}
+
+    uint64_t hash(uint64_t x) const {
+        x = hash_<0>(x);
+        x = hash_<1>(x);
+        x = hash_<2>(x);
+        return x;
+    }
+
+    uint64_t ihash(uint64_t x) const {
+        x = ihash_<2>(x);
+        x = ihash_<1>(x);
+        x = ihash_<0>(x);
+        return x;
+    }
+
+private:
+    template<unsigned K>
+    uint64_t hash_(uint64_t x) const {
+        x = xorshift_.hash<K>(x);
+        x = multiply_hash_.hash<K>(x);
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash_(uint64_t x) const {
+        x = multiply_hash_.ihash<K>(x);
+        x = xorshift_.ihash<K>(x);
+        return x;
+    }
+};
+
+}
+
 #endif
\ No newline at end of file
-- 
2.43.0


From bda1a61424c875220527369336c760e5bd6f13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 36/72] fix: CHT::erase looked for the wrong quotient

---
 include/sim_ds/CHT.hpp | 544 ++++++++++++++++++++---------------------
 1 file changed, 272 insertions(+), 272 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..8ec33ee 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -1,272 +1,272 @@
-#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
-#define SIDS_INCLUDE_SIM_DS_CHT_H_
-
-#include "BijectiveHash.hpp"
-#include "FitVector.hpp"
-#include "bit_util.hpp"
-
-#include <bitset>
-
-namespace sim_ds {
-
-template <
-    unsigned ValueBits,
-    unsigned MaxLoadFactorPercent = 50,
-    typename BijectiveHash = SplitMixHash>
-class CHT {
-    static_assert(MaxLoadFactorPercent < 100);
-public:
-    static constexpr size_t kDefaultBucketSize = 8;
-    static constexpr unsigned kFlagBits = 4;
-    static constexpr uint64_t kOccupiedMask = 1u << 0;
-    static constexpr uint64_t kContinuationMask = 1u << 1;
-    static constexpr uint64_t kShiftedMask = 1u << 2;
-    static constexpr uint64_t kDeletedMask = 1u << 3;
-
-private:
-    unsigned key_bits_;
-    size_t bucket_size_;
-    unsigned bucket_bits_;
-    uint64_t bucket_mask_;
-    size_t max_size_;
-    size_t min_size_;
-    BijectiveHash hasher_;
-    FitVector arr_;
-    FitVector values_;
-    uint64_t quo_mask_;
-    size_t size_ = 0;
-    size_t used_ = 0;
-
-    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
-    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
-    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
-    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
-    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
-
-    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
-
-public:
-    CHT() = default;
-    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
-        key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
-        bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
-        values_(ValueBits, bucket_size_),
-        hasher_(key_bits_) {
-        assert(bit_util::popcnt(bucket_size) == 1);
-        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
-        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
-        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
-    }
-
-    void set_value_width(unsigned width) {
-        if (ValueBits != 0 or size() != 0)
-            throw std::bad_function_call();
-        values_ = FitVector(width, bucket());
-    }
-
-    size_t ToClusterHead(size_t i) const {
-        if (!IsShifted(i))
-            return i;
-        size_t t = 0;
-        do {
-            i = pred(i);
-            if (IsOccupied(i))
-                ++t;
-        } while (IsShifted(i));
-        while (t) {
-            i = succ(i);
-            if (!IsContinuation(i))
-                --t;
-        }
-        return i;
-    }
-
-    std::pair<bool, uint64_t> get(uint64_t key) const {
-        assert(64-bit_util::clz(key) <= key_bits_);
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t i = initial_h & bucket_mask_;
-        if (!IsOccupied(i))
-            return {false, 0};
-        i = ToClusterHead(i);
-        do {
-            if (Quotient(i) == quo) {
-                return {true, values_[i]};
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-        return {false, 0};
-    }
-
-    bool IsFilled() const {
-        return used_ == max_size_;
-    }
-
-    void set(size_t key, uint64_t value) {
-        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
-        assert(64-bit_util::clz(value) <= values_.unit_width());
-
-        if (IsFilled()) {
-            reserve(size()*2);
-        }
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t initial_i = initial_h & bucket_mask_;
-        auto i = ToClusterHead(initial_i);
-        if (IsOccupied(initial_i)) {
-            do {
-                if (Quotient(i) == quo) {
-                    if (IsDeleted(i)) {
-                        arr_[i] = arr_[i] & ~kDeletedMask;
-                        size_++;
-                    }
-                    values_[i] = value;
-                    return;
-                }
-                i = succ(i);
-            } while (IsContinuation(i));
-        }
-        if (!IsNull(i)) {
-            auto j = i;
-            do {
-                j = succ(j);
-            } while (!IsNull(j));
-            do {
-                auto pj = pred(j);
-                arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
-                    kShiftedMask
-                );
-                values_[j] = values_[pj];
-                j = pj;
-            } while (i != j);
-            assert(j == i);
-        }
-        if (!IsOccupied(initial_i)) { // New cluster
-            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                (i != initial_i ? kShiftedMask : 0)
-            );
-        } else { // Already exists cluster
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                kContinuationMask |
-                kShiftedMask
-            );
-        }
-        ++size_;
-        ++used_;
-        values_[i] = value;
-    }
-
-    void erase(uint64_t key) {
-        if (size() == min_size_) {
-            reserve(size()*2);
-        }
-
-        auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
-        auto initial_i = initial_h & bucket_mask_;
-        if (!IsOccupied(initial_i))
-            return;
-        auto i = ToClusterHead(initial_i);
-        do {
-            if (Quotient(i) == quo) {
-                if (!IsDeleted(i)) {
-                    arr_[i] = arr_[i] | kDeletedMask;
-                    size_--;
-                }
-                return;
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-    }
-
-    size_t succ(size_t i) const {
-        i++;
-        [[unlikely]] if (i == bucket())
-            i = 0;
-        return i;
-    }
-
-    size_t pred(size_t i) const {
-        [[unlikely]] if (i == 0)
-            return bucket()-1;
-        else
-            return i-1;
-    }
-
-    void print_for_debug() const {
-        int cnt=0;
-        for (int i = 0; i < bucket(); i++) {
-            std::cout << i << "] "
-                      << bool(arr_[i]&kOccupiedMask)
-                      << bool(arr_[i]&kContinuationMask)
-                      << bool(arr_[i]&kShiftedMask)
-                      << std::endl;
-            if (IsShifted(i))
-                ++cnt;
-        }
-        std::cout<<"cnt shifted: "<<cnt<<std::endl;
-    }
-
-    void reserve(size_t _size) {
-        if (_size <= size())
-            return;
-        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
-        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
-        _resize(1ull << new_bucket_bits);
-    }
-    
-    size_t size() const {return size_;}
-    size_t bucket() const {return bucket_size_;}
-
-private:
-    void _resize(size_t new_bucket_size) {
-        CHT next(key_bits_, new_bucket_size);
-        if (ValueBits == 0)
-            next.set_value_width(values_.unit_width());
-        size_t i = 0;
-        size_t cnt = 0;
-        while (cnt < used_) {
-            while (!(IsOccupied(i) and !IsShifted(i))) {
-                i = succ(i);
-            }
-            std::queue<uint64_t> qs;
-            uint64_t f;
-            do {
-                if (IsOccupied(i)) {
-                    qs.push(i);
-                }
-                if (!IsContinuation(i)) {
-                    assert(!qs.empty());
-                    f = qs.front();
-                    qs.pop();
-                }
-                if (!IsDeleted(i)) {
-                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
-                    x = hasher_.ihash(x);
-                    next.set(x, values_[i]);
-                }
-                cnt++;
-                i = succ(i);
-            } while (IsShifted(i));
-        }
-        *this = next;
-    }
-
-};
-
-}
-
-#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
+#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
+#define SIDS_INCLUDE_SIM_DS_CHT_H_
+
+#include "BijectiveHash.hpp"
+#include "FitVector.hpp"
+#include "bit_util.hpp"
+
+#include <bitset>
+
+namespace sim_ds {
+
+template <
+    unsigned ValueBits,
+    unsigned MaxLoadFactorPercent = 50,
+    typename BijectiveHash = SplitMixHash>
+class CHT {
+    static_assert(MaxLoadFactorPercent < 100);
+public:
+    static constexpr size_t kDefaultBucketSize = 8;
+    static constexpr unsigned kFlagBits = 4;
+    static constexpr uint64_t kOccupiedMask = 1u << 0;
+    static constexpr uint64_t kContinuationMask = 1u << 1;
+    static constexpr uint64_t kShiftedMask = 1u << 2;
+    static constexpr uint64_t kDeletedMask = 1u << 3;
+
+private:
+    unsigned key_bits_;
+    size_t bucket_size_;
+    unsigned bucket_bits_;
+    uint64_t bucket_mask_;
+    size_t max_size_;
+    size_t min_size_;
+    BijectiveHash hasher_;
+    FitVector arr_;
+    FitVector values_;
+    uint64_t quo_mask_;
+    size_t size_ = 0;
+    size_t used_ = 0;
+
+    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
+    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
+    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
+    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
+    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
+
+    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
+
+public:
+    CHT() = default;
+    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
+        key_bits_(key_bits),
+        bucket_size_(bucket_size),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        bucket_mask_((1ull<<bucket_bits_)-1),
+        max_size_(bucket_size*MaxLoadFactorPercent/100),
+        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        values_(ValueBits, bucket_size_),
+        hasher_(key_bits_) {
+        assert(bit_util::popcnt(bucket_size) == 1);
+        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
+        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
+        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
+    }
+
+    void set_value_width(unsigned width) {
+        if (ValueBits != 0 or size() != 0)
+            throw std::bad_function_call();
+        values_ = FitVector(width, bucket());
+    }
+
+    size_t ToClusterHead(size_t i) const {
+        if (!IsShifted(i))
+            return i;
+        size_t t = 0;
+        do {
+            i = pred(i);
+            if (IsOccupied(i))
+                ++t;
+        } while (IsShifted(i));
+        while (t) {
+            i = succ(i);
+            if (!IsContinuation(i))
+                --t;
+        }
+        return i;
+    }
+
+    std::pair<bool, uint64_t> get(uint64_t key) const {
+        assert(64-bit_util::clz(key) <= key_bits_);
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t i = initial_h & bucket_mask_;
+        if (!IsOccupied(i))
+            return {false, 0};
+        i = ToClusterHead(i);
+        do {
+            if (Quotient(i) == quo) {
+                return {true, values_[i]};
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+        return {false, 0};
+    }
+
+    bool IsFilled() const {
+        return used_ == max_size_;
+    }
+
+    void set(size_t key, uint64_t value) {
+        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
+        assert(64-bit_util::clz(value) <= values_.unit_width());
+
+        if (IsFilled()) {
+            reserve(size()*2);
+        }
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t initial_i = initial_h & bucket_mask_;
+        auto i = ToClusterHead(initial_i);
+        if (IsOccupied(initial_i)) {
+            do {
+                if (Quotient(i) == quo) {
+                    if (IsDeleted(i)) {
+                        arr_[i] = arr_[i] & ~kDeletedMask;
+                        size_++;
+                    }
+                    values_[i] = value;
+                    return;
+                }
+                i = succ(i);
+            } while (IsContinuation(i));
+        }
+        if (!IsNull(i)) {
+            auto j = i;
+            do {
+                j = succ(j);
+            } while (!IsNull(j));
+            do {
+                auto pj = pred(j);
+                arr_[j] = (
+                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    kShiftedMask
+                );
+                values_[j] = values_[pj];
+                j = pj;
+            } while (i != j);
+            assert(j == i);
+        }
+        if (!IsOccupied(initial_i)) { // New cluster
+            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                (i != initial_i ? kShiftedMask : 0)
+            );
+        } else { // Already exists cluster
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                kContinuationMask |
+                kShiftedMask
+            );
+        }
+        ++size_;
+        ++used_;
+        values_[i] = value;
+    }
+
+    void erase(uint64_t key) {
+        if (size() == min_size_) {
+            reserve(size()*2);
+        }
+
+        auto initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        auto initial_i = initial_h & bucket_mask_;
+        if (!IsOccupied(initial_i))
+            return;
+        auto i = ToClusterHead(initial_i);
+        do {
+            if (Quotient(i) == quo) {
+                if (!IsDeleted(i)) {
+                    arr_[i] = arr_[i] | kDeletedMask;
+                    size_--;
+                }
+                return;
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+    }
+
+    size_t succ(size_t i) const {
+        i++;
+        [[unlikely]] if (i == bucket())
+            i = 0;
+        return i;
+    }
+
+    size_t pred(size_t i) const {
+        [[unlikely]] if (i == 0)
+            return bucket()-1;
+        else
+            return i-1;
+    }
+
+    void print_for_debug() const {
+        int cnt=0;
+        for (int i = 0; i < bucket(); i++) {
+            std::cout << i << "] "
+                      << bool(arr_[i]&kOccupiedMask)
+                      << bool(arr_[i]&kContinuationMask)
+                      << bool(arr_[i]&kShiftedMask)
+                      << std::endl;
+            if (IsShifted(i))
+                ++cnt;
+        }
+        std::cout<<"cnt shifted: "<<cnt<<std::endl;
+    }
+
+    void reserve(size_t _size) {
+        if (_size <= size())
+            return;
+        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
+        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
+        _resize(1ull << new_bucket_bits);
+    }
+    
+    size_t size() const {return size_;}
+    size_t bucket() const {return bucket_size_;}
+
+private:
+    void _resize(size_t new_bucket_size) {
+        CHT next(key_bits_, new_bucket_size);
+        if (ValueBits == 0)
+            next.set_value_width(values_.unit_width());
+        size_t i = 0;
+        size_t cnt = 0;
+        while (cnt < used_) {
+            while (!(IsOccupied(i) and !IsShifted(i))) {
+                i = succ(i);
+            }
+            std::queue<uint64_t> qs;
+            uint64_t f;
+            do {
+                if (IsOccupied(i)) {
+                    qs.push(i);
+                }
+                if (!IsContinuation(i)) {
+                    assert(!qs.empty());
+                    f = qs.front();
+                    qs.pop();
+                }
+                if (!IsDeleted(i)) {
+                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
+                    x = hasher_.ihash(x);
+                    next.set(x, values_[i]);
+                }
+                cnt++;
+                i = succ(i);
+            } while (IsShifted(i));
+        }
+        *this = next;
+    }
+
+};
+
+}
+
+#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
-- 
2.43.0


From a1d34e3b382bc4acff15d047e15bdebcd8bf6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 37/72] fix: CHT::get found erased keys

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 8ec33ee..338cebc 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From 93932124b17b471f8c3e8ed121d7b964e9c5998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 38/72] fix: CHT::set left the deleted flag behind when it
 shifted an element

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 338cebc..6865343 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 95e0362efe59dfa63e9327d5641ea6a127d1a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 39/72] fix: CHT::set never grew a table filled with erased
 elements and looped forever

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 6865343..b057d0e 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max<size_t>(1, size()*2));
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From 2e22cdcb29970dcb876244399a2daaf386225724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 40/72] fix: CDRWArray::set erased from the table of the next
 width

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From b2d837c8f0c11e122789155a1f397a930ad8b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 41/72] fix: CDRWVector::push_back onto an empty vector wrote
 to an empty array

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..d7cc670 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max<size_t>(1, size()*2));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From 67aea6d1ff1985e93b87f2ee912b1052285475f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 42/72] fix: CDRWVector asserted capacities that its own
 constructor and resize do not keep

---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index d7cc670..be60da4 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -121,7 +121,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From b4a636d9eae591e02f711f1881c04dcd2c3757ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 43/72] fix: CDRWVector::resize exposed values of elements
 removed before

---
 include/sim_ds/CDRWArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index be60da4..dccb9c2 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -79,6 +79,8 @@ public:
     }
 
     void resize(size_t new_size) {
+        for (size_t i = size(); i < std::min(new_size, cap_); i++)
+            set(i, 0); // elements removed before
         if (new_size > cap_) {
             _allocate(std::max(new_size, cap_*2));
         }
-- 
2.43.0


From e62d442ebc88a0b736c534b656c9dd726b82f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 44/72] fix: FactorOracle lost NUL transitions when it moved a
 state

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..44fa1da 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -167,7 +167,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From 54acaade47b1265071caa7eeb851357b32155f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 45/72] fix: FactorOracle of an empty text wrote to an empty
 table

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 44fa1da..ad26189 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From ac8d453e27d028f009ef636f7fbd9a17f11bd029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 46/72] fix: FactorOracle::image read past the text at its last
 state

---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index ad26189..b6aa04b 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -244,6 +244,8 @@ public:
     
     id_type next(size_t index) const {return next_[index];}
     
+    size_t size() const {return check_.size();}
+    
 };
 
 
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From 8a882b3f245188d660e275c15201ddc3be9fb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 47/72] fix: Kmp compared the text with the byte after the key
 after a match

---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..f850d08 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From f675a08341716608bb70b29227d405d0fec1a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 48/72] fix: Bm indexed its skip table with signed bytes and
 left out byte 0xFF

---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index f850d08..4f97175 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -115,9 +115,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[static_cast<uint8_t>(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -141,7 +141,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip_[static_cast<uint8_t>(text[i])];
         
     }
     return matchies;
-- 
2.43.0


From cbb438c014996ec84f53584f52b926e66fc53ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 49/72] fix: Sunday matchers indexed and compared signed bytes
 and missed bytes above 0x7F

---
 include/sim_ds/string_util/PatternMatching.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 4f97175..9261551 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -284,9 +284,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[static_cast<uint8_t>(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
@@ -304,7 +304,7 @@ SundayQS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == static_cast<uint8_t>(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
@@ -333,7 +333,7 @@ public:
                     long long j = pat.first - lshift;
                     if (j < 0)
                         continue;
-                    if (pat.second != key_[j])
+                    if (pat.second != static_cast<uint8_t>(key_[j]))
                         break;
                 }
                 if (ppos == -1)
@@ -352,7 +352,7 @@ public:
             while (lshift < key_.size()) {
                 auto& pat = pattern_[pos];
                 long long i = pat.first - lshift;
-                if (i < 0 or pat.second != key_[i])
+                if (i < 0 or pat.second != static_cast<uint8_t>(key_[i]))
                     break;
                 lshift++;
                 lshift = match_shift(pos, lshift);
@@ -376,7 +376,7 @@ SundayMS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == static_cast<uint8_t>(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
-- 
2.43.0


From ac6cfa406152c5362d27011ef77f70813a3b8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 50/72] fix: Sunday matchers ran past a text shorter than the
 key

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 9261551..5f5e9ca 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -301,7 +301,7 @@ SundayQS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == static_cast<uint8_t>(text[i + pat->first])) {
@@ -373,7 +373,7 @@ SundayMS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == static_cast<uint8_t>(text[i + pat->first])) {
-- 
2.43.0


From 7df64f65b706d178c8823d10ec0f22382452693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 51/72] fix: TurboBom read past its key when its KMP phase met
 a whole match

---
 include/sim_ds/string_util/PatternMatching.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 5f5e9ca..b176802 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -199,13 +199,15 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
-        for (size_t i = 0; i < text.size(); i++) {
+    // Read text until its end or the end of a match, and return the number of read characters.
+    long long kmp_search(std::string_view text, difference_type& pos) const {
+        size_t i = 0;
+        for (; i < text.size() and pos < difference_type(key_.size()); i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
         }
-        return pos;
+        return i;
     }
     
 };
@@ -230,11 +232,10 @@ TurboBom::find_all(std::string_view text) const {
             critpos = back + 1;
             back += kWindowSize - kmp_.next(kWindowSize);
         } else {
-            const auto prefix_size = pos > critpos ? 0 : critpos - begin;
+            difference_type next = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
-            critpos = kmp_begin + kKmpWindowSize;
-            back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
+            critpos = kmp_begin + kmp_search(text.substr(kmp_begin, kKmpWindowSize), next);
+            back = critpos - next + kWindowSize - 1;
         }
     }
     return matchies;
-- 
2.43.0


From 1197bad5587b597a437754aec274cf888678104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 52/72] fix: FactorOracle construction never ended once its
 free list was used up

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index b6aa04b..fef8b43 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (used_trans_[empty_trans_front_]) // no empty element
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From f7720e38b74396caa8811e295e13676a7f246e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 53/72] fix: Samc built from an empty key set dereferenced the
 end iterator

---
 include/sim_ds/string_util/Samc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..e253986 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -38,7 +38,7 @@ public:
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
       auto it = begin_;
-      if (begin_->size() == depth_) {
+      if (it != end_ and it->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
         while (++it != end_ and it->size() == depth_) {}
       }
-- 
2.43.0


From 9137620f6c2afc043ad884bac09dac3cefb9f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 54/72] fix: Samc lookups of a query holding NUL walked past
 the code table

---
 include/sim_ds/string_util/Samc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index e253986..ac5d002 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -321,6 +321,8 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    if (c == kLeafChar)
+      return false;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
@@ -443,6 +445,8 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    if (c == _base::kLeafChar)
+      return kSearchError;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
-- 
2.43.0


From 008fa3b950a7cb52b6a0ddd1001f982b0195094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 55/72] fix: default constructed Samc and SamcDict read empty
 tables on lookup

---
 include/sim_ds/string_util/Samc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index ac5d002..9217591 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -80,7 +80,8 @@ protected:
     std::vector<code_type> head_;
 
 public:
-    _SamcImpl() = default;
+    // Same state as built from an empty key set.
+    _SamcImpl() : storage_(1, '^'), code_table_(1), head_{0, 1, 1} {}
 
     char_type check(size_t index) const {return storage_[index];}
 
-- 
2.43.0


From ee6cbd676b42a40385a3812230b5e0d440381561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 56/72] fix: Trie compared item indices with -1 and took
 missing keys for found when its size type is narrow

---
 include/sim_ds/string_util/graph_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..c75207f 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -122,7 +122,7 @@ public:
     
     item_type* traverse(std::string_view key) {
         auto item_index = _traverse(key);
-        return item_index != -1 ? &storage_[item_index] : nullptr;
+        return item_index != kItemEmpty ? &storage_[item_index] : nullptr;
     }
     
     template <class NODE_ACTION>
@@ -166,19 +166,19 @@ public:
     }
     
 private:
-    size_t _traverse(std::string_view key) const {
+    size_type _traverse(std::string_view key) const {
         size_t node = kRootIndex;
         for (uint8_t c : key) {
             auto& n = container_[node];
             auto target = n.target(c);
             if (target == kRootIndex)
-                return -1;
+                return kItemEmpty;
             node = target;
         }
         auto& n = container_[node];
         auto target = n.target('\0');
         if (target == kRootIndex)
-            return -1;
+            return kItemEmpty;
         node = target;
         
         auto& terminal = container_[node];
-- 
2.43.0


From 959bdc50e6d720630839a00db98ae7ac417a8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 57/72] fix: SuffixArray indexed buckets with signed bytes and
 mixed NUL up with its sentinel

---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..5cda17c 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -130,7 +130,7 @@ void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
-    vector<size_t> sArr = Sais_(strVec, 0xff);
+    vector<size_t> sArr = Sais_(strVec, 0x100);
     // Erase first element. suffix[0]: '\0'
     sArr.erase(sArr.begin());
     s_arr_ = FitVector(sArr);
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is for the sentinel
     saisS.push_back(0);
 }
 
-- 
2.43.0


From 0eef886a25824582d116cda318216a35fb66d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 58/72] fix: SuffixArray of an empty string read its LCP
 statistics out of bounds

---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 5cda17c..a315e3a 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -321,8 +321,8 @@ inline void SuffixArray::BuildLCP_() {
         maxL = std::max(l, maxL);
         sum += l;
     }
-    float ave = float(sum) / lcp_arr.size();
-    size_t median = lcp_arr[lcp_arr.size() / 2];
+    float ave = lcp_arr.empty() ? 0 : float(sum) / lcp_arr.size();
+    size_t median = lcp_arr.empty() ? 0 : lcp_arr[lcp_arr.size() / 2];
     using std::cout, std::endl;
     cout << "------ LCP-Arr Status ------" << endl;
     cout << "Number of elements: " << lcp_arr.size() << endl;
-- 
2.43.0


From 67d6fc4f3f4f45d7ffbc6c416f154e8fb7c501d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 59/72] fix: SuffixArray left suffixes unsorted when all LMS
 substrings were unique

---
 include/sim_ds/string_util/SuffixArray.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index a315e3a..fb83a58 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -212,16 +212,18 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    vector<size_t> subSais;
     if (countShared == 0) {
-        return sArr;
+        // Every LMS substring is unique: their names are already their order.
+        subSais.resize(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
-        const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-        const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
-        return rSais;
+        subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
     }
+    return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
 }
 
 inline typename SuffixArray::InducedRV SuffixArray::InducedSort_(size_t maxValue, const vector<size_t> &str, const vector<bool> &slTypes, const vector<size_t> &lmsIds) const {
-- 
2.43.0


From 178293b4c68566bba6dd08265330e760cc040044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 60/72] fix: SuffixArray of an empty string had no LMS suffix
 and indexed out of bounds

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index fb83a58..6c6871d 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -128,6 +128,8 @@ private:
 
 void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
+    if (str.empty())
+        return;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
     vector<size_t> sArr = Sais_(strVec, 0x100);
-- 
2.43.0


From e911d34ac4e8de72054d9996ab6fa2c471cebf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 61/72] fix: sim_ds.hpp included a header that does not exist

---
 include/sim_ds.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds.hpp b/include/sim_ds.hpp
index 20867e9..32a1cc4 100644
--- a/include/sim_ds.hpp
+++ b/include/sim_ds.hpp
@@ -20,7 +20,6 @@
 #include "sim_ds/string_util/PatternMatching.hpp"
 #include "sim_ds/string_util/graph_util.hpp"
 #include "sim_ds/string_util/Samc.hpp"
-#include "sim_ds/EmptyLinkedVector.hpp"
 #include "sim_ds/InitializableArray.hpp"
 #include "sim_ds/bit_util.hpp"
 #include "sim_ds/bit_util256.hpp"
-- 
2.43.0


From 45157b401b0886b7381be9547bd102ea46f7b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 62/72] fix: headers did not include the standard headers they
 use

---
 include/sim_ds/CHT.hpp                | 1 +
 include/sim_ds/InitializableArray.hpp | 2 ++
 include/sim_ds/calc.hpp               | 6 ++++++
 include/sim_ds/log.hpp                | 1 +
 4 files changed, 10 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index b057d0e..128b5f4 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -6,6 +6,7 @@
 #include "bit_util.hpp"
 
 #include <bitset>
+#include <functional>
 
 namespace sim_ds {
 
diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 910f620..d532682 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -4,6 +4,8 @@
 #include <array>
 #include <vector>
 #include <bitset>
+#include <iostream>
+#include <limits>
 #include <numeric>
 #include <type_traits>
 
diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 172c66b..845eff4 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -8,7 +8,13 @@
 #ifndef calc_hpp
 #define calc_hpp
 
+#include <cstddef>
+#include <cstdint>
 #include <vector>
+#include <algorithm>
+#include <iostream>
+#include <iterator>
+#include <limits>
 
 namespace sim_ds::calc {
 
diff --git a/include/sim_ds/log.hpp b/include/sim_ds/log.hpp
index 60c380c..473d3e0 100644
--- a/include/sim_ds/log.hpp
+++ b/include/sim_ds/log.hpp
@@ -10,6 +10,7 @@
 
 #include <cstdio>
 #include <iomanip>
+#include <iostream>
 
 namespace sim_ds {
     
-- 
2.43.0


From dd2823d42e8ad2b8b84d8c8b057ae89aa7696b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 63/72] fix: functions defined in headers were not inline and
 clashed between translation units

---
 include/sim_ds/DacVector.hpp                  |  2 +-
 include/sim_ds/InitializableArray.hpp         |  1 +
 include/sim_ds/SuccinctBitVector.hpp          |  4 +--
 include/sim_ds/bit_util256.hpp                |  4 +--
 .../sim_ds/string_util/PatternMatching.hpp    | 34 +++++++++----------
 include/sim_ds/string_util/SuffixArray.hpp    |  6 ++--
 6 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 4ddcaa0..c838365 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -301,7 +301,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         paths_.emplace_back(std::move(path));
 }
 
-DacVector::value_type DacVector::operator[](size_t index) const {
+inline DacVector::value_type DacVector::operator[](size_t index) const {
     value_type value = layers_[0][index];
     for (size_t depth = 1, shift_bits = layers_unit_bits_[depth - 1], i = index;
          depth < num_layers();
diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index d532682..9f0a711 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -4,6 +4,7 @@
 #include <array>
 #include <vector>
 #include <bitset>
+#include <cassert>
 #include <iostream>
 #include <limits>
 #include <numeric>
diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 4eb5af6..b09a747 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -139,13 +139,13 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
 
 
 template <>
-size_t
+inline size_t
 SuccinctBitVector<false>::select([[maybe_unused]] size_t index) const {
     throw "select(size_t) is not supported. You must use SuccinctBitVector<true>.";
 }
 
 template <>
-size_t
+inline size_t
 SuccinctBitVector<true>::select(size_t index) const {
     size_t left = 0, right = num_blocks();
     size_t i = index;
diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a73401e..0b23432 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -83,7 +83,7 @@ inline int clz256(const uint64_t* x_addr) {
 
 // MARK: - xor_map
 
-void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
+inline void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
     for (int i = 0; i < 4; i++)
         *(dst_addr+i) = *(x_addr+i);
     if (mask & 1) {
@@ -133,7 +133,7 @@ void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
 }
 
 #if defined(__AVX2__)
-__m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
+inline __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
     if (mask & 1) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x5555555555555555)), 1),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xAAAAAAAAAAAAAAAA)), 1));
diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index b176802..2cb6e4b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -22,7 +22,7 @@ public:
     virtual ~_PatternMatchingInterface();
     virtual std::vector<size_t> find_all(std::string_view text) const = 0;
 };
-_PatternMatchingInterface::~_PatternMatchingInterface() {}
+inline _PatternMatchingInterface::~_PatternMatchingInterface() {}
 
 class _PatternMatchingBase : protected _PatternMatchingInterface {
 public:
@@ -34,7 +34,7 @@ public:
     ~_PatternMatchingBase();
     size_t key_size() const {return key_.size();}
 };
-_PatternMatchingBase::~_PatternMatchingBase() {}
+inline _PatternMatchingBase::~_PatternMatchingBase() {}
 
 
 // MARK: Simple
@@ -47,7 +47,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Simple::find_all(std::string_view text) const {
     std::vector<size_t> matchies;
     if (text.size() < key_.size())
@@ -91,7 +91,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Kmp::find_all(std::string_view text) const {
     std::vector<size_t> matchies;
     difference_type pos = 0;
@@ -127,7 +127,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Bm::find_all(std::string_view text) const {
     const size_t kWindowSize = key_.size();
     
@@ -161,7 +161,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Bom::find_all(std::string_view text) const {
     const long long kWindowSize = key_.size();
     
@@ -212,7 +212,7 @@ private:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 TurboBom::find_all(std::string_view text) const {
     const long long kWindowSize = key_.size();
     const long long kKmpWindowSize = kAlpha * kWindowSize;
@@ -274,7 +274,7 @@ public:
     const Pat* ordered_pattern(size_t num) const {return &pattern_[num];}
     
 };
-Sunday::~Sunday() {}
+inline Sunday::~Sunday() {}
 
 
 class SundayQS : public Sunday {
@@ -296,7 +296,7 @@ public:
  
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
@@ -368,7 +368,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
@@ -392,31 +392,31 @@ SundayMS::find_all(std::string_view text) const {
 
 // MARK: - Pattern matching functions
 
-std::vector<size_t> PatternMatchSimple(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSimple(std::string_view text, std::string_view key) {
     return Simple(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchKMP(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchKMP(std::string_view text, std::string_view key) {
     return Kmp(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchBM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchBM(std::string_view text, std::string_view key) {
     return Bm(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchBOM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchBOM(std::string_view text, std::string_view key) {
     return Bom(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchTurboBOM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchTurboBOM(std::string_view text, std::string_view key) {
     return TurboBom(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchSundayQS(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSundayQS(std::string_view text, std::string_view key) {
     return SundayQS(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchSundayMS(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSundayMS(std::string_view text, std::string_view key) {
     return SundayMS(key).find_all(text);
 }
 
diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 6c6871d..fcd9eff 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -126,7 +126,7 @@ private:
     
 };
 
-void SuffixArray::BuildSA_(const string &str) {
+inline void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     if (str.empty())
         return;
@@ -139,7 +139,7 @@ void SuffixArray::BuildSA_(const string &str) {
 }
 
 
-void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
+inline void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
         saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is for the sentinel
@@ -147,7 +147,7 @@ void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
 }
 
 
-void SuffixArray::MakeBuckets_(vector<Bucket> &buckets, const vector<size_t> &str, size_t maxValue) const {
+inline void SuffixArray::MakeBuckets_(vector<Bucket> &buckets, const vector<size_t> &str, size_t maxValue) const {
     buckets.resize(maxValue + 1);
     for (auto s : str) {
         buckets[s].count++;
-- 
2.43.0


From 036fb86de4aebfff6640abd3704b96944bcde62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 64/72] fix: InitializableArray chain pointers overran the word
 for elements wider than it

---
 include/sim_ds/InitializableArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 9f0a711..5767959 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -1,7 +1,9 @@
 #ifndef initializable_array_hpp
 #define initializable_array_hpp
 
+#include <algorithm>
 #include <array>
+#include <cstring>
 #include <vector>
 #include <bitset>
 #include <cassert>
@@ -177,12 +179,12 @@ public:
 private:
     size_t _to(size_t i) const {
         size_t res = 0;
-        memcpy(&res, &a_[i], sizeof(T));
+        memcpy(&res, &a_[i], std::min(sizeof(T), sizeof(size_t)));
         return res;
     }
     
     void _set_to(size_t i, size_t b) {
-        memcpy(&a_[i], &b, sizeof(T));
+        memcpy(&a_[i], &b, std::min(sizeof(T), sizeof(size_t)));
     }
     
     size_t _chained_to(size_t b) const {
-- 
2.43.0


From fca6ea43cc149d1310ea959045801927dcf99e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 65/72] fix: SizeFitsAsList shifted by the word width for a
 64-bit unit

---
 include/sim_ds/calc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 845eff4..f989e33 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -43,7 +43,10 @@ inline constexpr size_t SizeFitsInBits(unsigned long long value) {
 template <typename Container>
 inline size_t SizeFitsAsList(unsigned long long value, const Container sizes) {
     size_t size = 0;
-    while (static_cast<bool>(value >>= sizes[size++])) continue;
+    do { // a unit may be as wide as the value
+        value = static_cast<size_t>(sizes[size]) < 64 ? value >> sizes[size] : 0;
+        size++;
+    } while (value != 0);
     return size;
 }
 
-- 
2.43.0


From 9c7490af431176459b49296e596dfe0396f7de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 66/72] fix: MultiBitVector wrote indeterminate padding bytes
 of its rank directory

---
 include/sim_ds/MultiBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultiBitVector.hpp b/include/sim_ds/MultiBitVector.hpp
index b3779d3..1e5a0bb 100644
--- a/include/sim_ds/MultiBitVector.hpp
+++ b/include/sim_ds/MultiBitVector.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<id_type> bits_;
     struct RankTip {
         id_type L1;
-        uint8_t L2[kBlocksInTipSize];
+        uint8_t L2[(kBlocksInTipSize + 7) / 8 * 8]; // whole words: tips are written as they lie in memory
     };
     std::vector<RankTip> rank_tips_[kMaxNumTypes];
     
-- 
2.43.0


From f12a536d894258e657e66025e8e028c3a1c254ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 67/72] fix: give BijectiveHash.hpp and CHT.hpp back the CRLF
 line endings that earlier fixes dropped

---
 include/sim_ds/BijectiveHash.hpp | 314 +++++++++---------
 include/sim_ds/CHT.hpp           | 550 +++++++++++++++----------------
 2 files changed, 432 insertions(+), 432 deletions(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index a203b30..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -1,158 +1,158 @@
-#ifndef _SIM_DS_BIJECTIVE_HASH_
-#define _SIM_DS_BIJECTIVE_HASH_
-
-#include <cstdint>
-
-namespace sim_ds {
-
-class Xorshift {
-private:
-    unsigned shifts_;
-
-public:
-    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x ^ (x >> (shifts_+K)));
-        return x;
-    }
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        return hash<K>(x);
-    }
-
-};
-
-constexpr uint64_t PRIME_TABLE[][2][3] = {
-    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
-    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
-    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
-    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
-    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
-    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
-    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
-    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
-    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
-    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
-    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
-    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
-    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
-    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
-    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
-    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
-    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
-    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
-    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
-    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
-    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
-    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
-    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
-    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
-    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
-    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
-    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
-    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
-    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
-    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
-    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
-    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
-    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
-    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
-    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
-    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
-    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
-    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
-    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
-    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
-    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
-    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
-    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
-    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
-    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
-    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
-    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
-    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
-    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
-    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
-    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
-    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
-    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
-    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
-    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
-    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
-    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
-    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
-    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
-    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
-    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
-    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
-    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
-    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
-};
-
-class MultiplyHash {
-private:
-    unsigned width_;
-    uint64_t mask_;
-public:
-    explicit MultiplyHash(unsigned width=64) :
-        width_(width),
-        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
-        return x;
-    }
-};
-
-class SplitMixHash {
-private:
-    Xorshift xorshift_;
-    MultiplyHash multiply_hash_;
-
-public:
-    explicit SplitMixHash(unsigned width=64) :
-        xorshift_(width), multiply_hash_(width) {}
-
-    uint64_t hash(uint64_t x) const {
-        x = hash_<0>(x);
-        x = hash_<1>(x);
-        x = hash_<2>(x);
-        return x;
-    }
-
-    uint64_t ihash(uint64_t x) const {
-        x = ihash_<2>(x);
-        x = ihash_<1>(x);
-        x = ihash_<0>(x);
-        return x;
-    }
-
-private:
-    template<unsigned K>
-    uint64_t hash_(uint64_t x) const {
-        x = xorshift_.hash<K>(x);
-        x = multiply_hash_.hash<K>(x);
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash_(uint64_t x) const {
-        x = multiply_hash_.ihash<K>(x);
-        x = xorshift_.ihash<K>(x);
-        return x;
-    }
-};
-
-}
-
+#ifndef _SIM_DS_BIJECTIVE_HASH_
+#define _SIM_DS_BIJECTIVE_HASH_
+
+#include <cstdint>
+
+namespace sim_ds {
+
+class Xorshift {
+private:
+    unsigned shifts_;
+
+public:
+    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x ^ (x >> (shifts_+K)));
+        return x;
+    }
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        return hash<K>(x);
+    }
+
+};
+
+constexpr uint64_t PRIME_TABLE[][2][3] = {
+    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
+    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
+    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
+    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
+    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
+    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
+    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
+    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
+    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
+    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
+    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
+    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
+    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
+    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
+    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
+    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
+    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
+    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
+    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
+    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
+    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
+    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
+    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
+    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
+    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
+    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
+    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
+    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
+    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
+    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
+    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
+    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
+    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
+    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
+    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
+    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
+    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
+    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
+    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
+    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
+    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
+    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
+    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
+    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
+    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
+    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
+    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
+    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
+    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
+    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
+    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
+    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
+    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
+    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
+    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
+    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
+    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
+    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
+    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
+    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
+    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
+    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
+    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
+};
+
+class MultiplyHash {
+private:
+    unsigned width_;
+    uint64_t mask_;
+public:
+    explicit MultiplyHash(unsigned width=64) :
+        width_(width),
+        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
+        return x;
+    }
+};
+
+class SplitMixHash {
+private:
+    Xorshift xorshift_;
+    MultiplyHash multiply_hash_;
+
+public:
+    explicit SplitMixHash(unsigned width=64) :
+        xorshift_(width), multiply_hash_(width) {}
+
+    uint64_t hash(uint64_t x) const {
+        x = hash_<0>(x);
+        x = hash_<1>(x);
+        x = hash_<2>(x);
+        return x;
+    }
+
+    uint64_t ihash(uint64_t x) const {
+        x = ihash_<2>(x);
+        x = ihash_<1>(x);
+        x = ihash_<0>(x);
+        return x;
+    }
+
+private:
+    template<unsigned K>
+    uint64_t hash_(uint64_t x) const {
+        x = xorshift_.hash<K>(x);
+        x = multiply_hash_.hash<K>(x);
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash_(uint64_t x) const {
+        x = multiply_hash_.ihash<K>(x);
+        x = xorshift_.ihash<K>(x);
+        return x;
+    }
+};
+
+}
+
 #endif
\ No newline at end of file
diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 128b5f4..f01376c 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -1,275 +1,275 @@
-#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
-#define SIDS_INCLUDE_SIM_DS_CHT_H_
-
-#include "BijectiveHash.hpp"
-#include "FitVector.hpp"
-#include "bit_util.hpp"
-
-#include <bitset>
-#include <functional>
-
-namespace sim_ds {
-
-template <
-    unsigned ValueBits,
-    unsigned MaxLoadFactorPercent = 50,
-    typename BijectiveHash = SplitMixHash>
-class CHT {
-    static_assert(MaxLoadFactorPercent < 100);
-public:
-    static constexpr size_t kDefaultBucketSize = 8;
-    static constexpr unsigned kFlagBits = 4;
-    static constexpr uint64_t kOccupiedMask = 1u << 0;
-    static constexpr uint64_t kContinuationMask = 1u << 1;
-    static constexpr uint64_t kShiftedMask = 1u << 2;
-    static constexpr uint64_t kDeletedMask = 1u << 3;
-
-private:
-    unsigned key_bits_;
-    size_t bucket_size_;
-    unsigned bucket_bits_;
-    uint64_t bucket_mask_;
-    size_t max_size_;
-    size_t min_size_;
-    BijectiveHash hasher_;
-    FitVector arr_;
-    FitVector values_;
-    uint64_t quo_mask_;
-    size_t size_ = 0;
-    size_t used_ = 0;
-
-    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
-    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
-    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
-    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
-    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
-
-    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
-
-public:
-    CHT() = default;
-    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
-        key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
-        bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
-        values_(ValueBits, bucket_size_),
-        hasher_(key_bits_) {
-        assert(bit_util::popcnt(bucket_size) == 1);
-        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
-        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
-        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
-    }
-
-    void set_value_width(unsigned width) {
-        if (ValueBits != 0 or size() != 0)
-            throw std::bad_function_call();
-        values_ = FitVector(width, bucket());
-    }
-
-    size_t ToClusterHead(size_t i) const {
-        if (!IsShifted(i))
-            return i;
-        size_t t = 0;
-        do {
-            i = pred(i);
-            if (IsOccupied(i))
-                ++t;
-        } while (IsShifted(i));
-        while (t) {
-            i = succ(i);
-            if (!IsContinuation(i))
-                --t;
-        }
-        return i;
-    }
-
-    std::pair<bool, uint64_t> get(uint64_t key) const {
-        assert(64-bit_util::clz(key) <= key_bits_);
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t i = initial_h & bucket_mask_;
-        if (!IsOccupied(i))
-            return {false, 0};
-        i = ToClusterHead(i);
-        do {
-            if (Quotient(i) == quo) {
-                if (IsDeleted(i))
-                    return {false, 0};
-                return {true, values_[i]};
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-        return {false, 0};
-    }
-
-    bool IsFilled() const {
-        return used_ == max_size_;
-    }
-
-    void set(size_t key, uint64_t value) {
-        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
-        assert(64-bit_util::clz(value) <= values_.unit_width());
-
-        if (IsFilled()) {
-            reserve(std::max<size_t>(1, size()*2));
-        }
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t initial_i = initial_h & bucket_mask_;
-        auto i = ToClusterHead(initial_i);
-        if (IsOccupied(initial_i)) {
-            do {
-                if (Quotient(i) == quo) {
-                    if (IsDeleted(i)) {
-                        arr_[i] = arr_[i] & ~kDeletedMask;
-                        size_++;
-                    }
-                    values_[i] = value;
-                    return;
-                }
-                i = succ(i);
-            } while (IsContinuation(i));
-        }
-        if (!IsNull(i)) {
-            auto j = i;
-            do {
-                j = succ(j);
-            } while (!IsNull(j));
-            do {
-                auto pj = pred(j);
-                arr_[j] = (
-                    (arr_[j] & kOccupiedMask) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
-                    kShiftedMask
-                );
-                values_[j] = values_[pj];
-                j = pj;
-            } while (i != j);
-            assert(j == i);
-        }
-        if (!IsOccupied(initial_i)) { // New cluster
-            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                (i != initial_i ? kShiftedMask : 0)
-            );
-        } else { // Already exists cluster
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                kContinuationMask |
-                kShiftedMask
-            );
-        }
-        ++size_;
-        ++used_;
-        values_[i] = value;
-    }
-
-    void erase(uint64_t key) {
-        if (size() == min_size_) {
-            reserve(size()*2);
-        }
-
-        auto initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        auto initial_i = initial_h & bucket_mask_;
-        if (!IsOccupied(initial_i))
-            return;
-        auto i = ToClusterHead(initial_i);
-        do {
-            if (Quotient(i) == quo) {
-                if (!IsDeleted(i)) {
-                    arr_[i] = arr_[i] | kDeletedMask;
-                    size_--;
-                }
-                return;
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-    }
-
-    size_t succ(size_t i) const {
-        i++;
-        [[unlikely]] if (i == bucket())
-            i = 0;
-        return i;
-    }
-
-    size_t pred(size_t i) const {
-        [[unlikely]] if (i == 0)
-            return bucket()-1;
-        else
-            return i-1;
-    }
-
-    void print_for_debug() const {
-        int cnt=0;
-        for (int i = 0; i < bucket(); i++) {
-            std::cout << i << "] "
-                      << bool(arr_[i]&kOccupiedMask)
-                      << bool(arr_[i]&kContinuationMask)
-                      << bool(arr_[i]&kShiftedMask)
-                      << std::endl;
-            if (IsShifted(i))
-                ++cnt;
-        }
-        std::cout<<"cnt shifted: "<<cnt<<std::endl;
-    }
-
-    void reserve(size_t _size) {
-        if (_size <= size())
-            return;
-        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
-        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
-        _resize(1ull << new_bucket_bits);
-    }
-    
-    size_t size() const {return size_;}
-    size_t bucket() const {return bucket_size_;}
-
-private:
-    void _resize(size_t new_bucket_size) {
-        CHT next(key_bits_, new_bucket_size);
-        if (ValueBits == 0)
-            next.set_value_width(values_.unit_width());
-        size_t i = 0;
-        size_t cnt = 0;
-        while (cnt < used_) {
-            while (!(IsOccupied(i) and !IsShifted(i))) {
-                i = succ(i);
-            }
-            std::queue<uint64_t> qs;
-            uint64_t f;
-            do {
-                if (IsOccupied(i)) {
-                    qs.push(i);
-                }
-                if (!IsContinuation(i)) {
-                    assert(!qs.empty());
-                    f = qs.front();
-                    qs.pop();
-                }
-                if (!IsDeleted(i)) {
-                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
-                    x = hasher_.ihash(x);
-                    next.set(x, values_[i]);
-                }
-                cnt++;
-                i = succ(i);
-            } while (IsShifted(i));
-        }
-        *this = next;
-    }
-
-};
-
-}
-
-#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
+#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
+#define SIDS_INCLUDE_SIM_DS_CHT_H_
+
+#include "BijectiveHash.hpp"
+#include "FitVector.hpp"
+#include "bit_util.hpp"
+
+#include <bitset>
+#include <functional>
+
+namespace sim_ds {
+
+template <
+    unsigned ValueBits,
+    unsigned MaxLoadFactorPercent = 50,
+    typename BijectiveHash = SplitMixHash>
+class CHT {
+    static_assert(MaxLoadFactorPercent < 100);
+public:
+    static constexpr size_t kDefaultBucketSize = 8;
+    static constexpr unsigned kFlagBits = 4;
+    static constexpr uint64_t kOccupiedMask = 1u << 0;
+    static constexpr uint64_t kContinuationMask = 1u << 1;
+    static constexpr uint64_t kShiftedMask = 1u << 2;
+    static constexpr uint64_t kDeletedMask = 1u << 3;
+
+private:
+    unsigned key_bits_;
+    size_t bucket_size_;
+    unsigned bucket_bits_;
+    uint64_t bucket_mask_;
+    size_t max_size_;
+    size_t min_size_;
+    BijectiveHash hasher_;
+    FitVector arr_;
+    FitVector values_;
+    uint64_t quo_mask_;
+    size_t size_ = 0;
+    size_t used_ = 0;
+
+    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
+    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
+    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
+    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
+    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
+
+    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
+
+public:
+    CHT() = default;
+    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
+        key_bits_(key_bits),
+        bucket_size_(bucket_size),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        bucket_mask_((1ull<<bucket_bits_)-1),
+        max_size_(bucket_size*MaxLoadFactorPercent/100),
+        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        values_(ValueBits, bucket_size_),
+        hasher_(key_bits_) {
+        assert(bit_util::popcnt(bucket_size) == 1);
+        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
+        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
+        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
+    }
+
+    void set_value_width(unsigned width) {
+        if (ValueBits != 0 or size() != 0)
+            throw std::bad_function_call();
+        values_ = FitVector(width, bucket());
+    }
+
+    size_t ToClusterHead(size_t i) const {
+        if (!IsShifted(i))
+            return i;
+        size_t t = 0;
+        do {
+            i = pred(i);
+            if (IsOccupied(i))
+                ++t;
+        } while (IsShifted(i));
+        while (t) {
+            i = succ(i);
+            if (!IsContinuation(i))
+                --t;
+        }
+        return i;
+    }
+
+    std::pair<bool, uint64_t> get(uint64_t key) const {
+        assert(64-bit_util::clz(key) <= key_bits_);
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t i = initial_h & bucket_mask_;
+        if (!IsOccupied(i))
+            return {false, 0};
+        i = ToClusterHead(i);
+        do {
+            if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
+                return {true, values_[i]};
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+        return {false, 0};
+    }
+
+    bool IsFilled() const {
+        return used_ == max_size_;
+    }
+
+    void set(size_t key, uint64_t value) {
+        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
+        assert(64-bit_util::clz(value) <= values_.unit_width());
+
+        if (IsFilled()) {
+            reserve(std::max<size_t>(1, size()*2));
+        }
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t initial_i = initial_h & bucket_mask_;
+        auto i = ToClusterHead(initial_i);
+        if (IsOccupied(initial_i)) {
+            do {
+                if (Quotient(i) == quo) {
+                    if (IsDeleted(i)) {
+                        arr_[i] = arr_[i] & ~kDeletedMask;
+                        size_++;
+                    }
+                    values_[i] = value;
+                    return;
+                }
+                i = succ(i);
+            } while (IsContinuation(i));
+        }
+        if (!IsNull(i)) {
+            auto j = i;
+            do {
+                j = succ(j);
+            } while (!IsNull(j));
+            do {
+                auto pj = pred(j);
+                arr_[j] = (
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
+                    kShiftedMask
+                );
+                values_[j] = values_[pj];
+                j = pj;
+            } while (i != j);
+            assert(j == i);
+        }
+        if (!IsOccupied(initial_i)) { // New cluster
+            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                (i != initial_i ? kShiftedMask : 0)
+            );
+        } else { // Already exists cluster
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                kContinuationMask |
+                kShiftedMask
+            );
+        }
+        ++size_;
+        ++used_;
+        values_[i] = value;
+    }
+
+    void erase(uint64_t key) {
+        if (size() == min_size_) {
+            reserve(size()*2);
+        }
+
+        auto initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        auto initial_i = initial_h & bucket_mask_;
+        if (!IsOccupied(initial_i))
+            return;
+        auto i = ToClusterHead(initial_i);
+        do {
+            if (Quotient(i) == quo) {
+                if (!IsDeleted(i)) {
+                    arr_[i] = arr_[i] | kDeletedMask;
+                    size_--;
+                }
+                return;
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+    }
+
+    size_t succ(size_t i) const {
+        i++;
+        [[unlikely]] if (i == bucket())
+            i = 0;
+        return i;
+    }
+
+    size_t pred(size_t i) const {
+        [[unlikely]] if (i == 0)
+            return bucket()-1;
+        else
+            return i-1;
+    }
+
+    void print_for_debug() const {
+        int cnt=0;
+        for (int i = 0; i < bucket(); i++) {
+            std::cout << i << "] "
+                      << bool(arr_[i]&kOccupiedMask)
+                      << bool(arr_[i]&kContinuationMask)
+                      << bool(arr_[i]&kShiftedMask)
+                      << std::endl;
+            if (IsShifted(i))
+                ++cnt;
+        }
+        std::cout<<"cnt shifted: "<<cnt<<std::endl;
+    }
+
+    void reserve(size_t _size) {
+        if (_size <= size())
+            return;
+        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
+        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
+        _resize(1ull << new_bucket_bits);
+    }
+    
+    size_t size() const {return size_;}
+    size_t bucket() const {return bucket_size_;}
+
+private:
+    void _resize(size_t new_bucket_size) {
+        CHT next(key_bits_, new_bucket_size);
+        if (ValueBits == 0)
+            next.set_value_width(values_.unit_width());
+        size_t i = 0;
+        size_t cnt = 0;
+        while (cnt < used_) {
+            while (!(IsOccupied(i) and !IsShifted(i))) {
+                i = succ(i);
+            }
+            std::queue<uint64_t> qs;
+            uint64_t f;
+            do {
+                if (IsOccupied(i)) {
+                    qs.push(i);
+                }
+                if (!IsContinuation(i)) {
+                    assert(!qs.empty());
+                    f = qs.front();
+                    qs.pop();
+                }
+                if (!IsDeleted(i)) {
+                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
+                    x = hasher_.ihash(x);
+                    next.set(x, values_[i]);
+                }
+                cnt++;
+                i = succ(i);
+            } while (IsShifted(i));
+        }
+        *this = next;
+    }
+
+};
+
+}
+
+#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
-- 
2.43.0


From 64c7c55b3ac80638f1d74436db51fc65a289a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 68/72] fix: cummulative_frequency_list counted in an int

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index f989e33..59830b5 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -73,7 +73,7 @@ inline void cummulative_frequency_list(const Container& list, std::vector<T>* re
     std::vector<size_t> cf;
     std::vector<size_t> map;
     bit_length_frequencies(list, &map);
-    auto count = 0;
+    size_t count = 0;
     cf.assign(map.size(), 0);
     for (auto i = map.size(); i > 0; i--) {
         count += map[i - 1];
-- 
2.43.0


From 64ccfa894c0eab98eff15b45768487bafe73eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:21 +0000
Subject: [PATCH 69/72] fix: WaveletTree indexed the text it is built from with
 an int

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index fd9c3af..5025cee 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -37,7 +37,7 @@ public:
         bv_list_src_.resize((1U << height) - 1);
         height_ = height;
         
-        for (auto i = 0; i < vec.size(); i++) {
+        for (size_t i = 0; i < vec.size(); i++) {
             auto id = 1;
             auto value = vec[i];
             for (size_t depth = 0; depth < height_; depth++) {
-- 
2.43.0


From c7b02b2410993714270b940aa5c2a4f2dec2bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 70/72] fix: subtracting iterators over elements of width 0
 divided by zero

---
 include/sim_ds/BitsReference.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/BitsReference.hpp b/include/sim_ds/BitsReference.hpp
index b7dd032..6ef4e7b 100644
--- a/include/sim_ds/BitsReference.hpp
+++ b/include/sim_ds/BitsReference.hpp
@@ -192,7 +192,7 @@ public:
     
     friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {
         auto bits = (x.seg_ - y.seg_) * static_cast<difference_type>(kBitsPerWord) + static_cast<difference_type>(x.start_) - static_cast<difference_type>(y.start_);
-        return bits / static_cast<difference_type>(x.bits_per_entity_);
+        return bits == 0 ? 0 : bits / static_cast<difference_type>(x.bits_per_entity_); // elements may be 0 bits wide
     }
     
     reference operator[](difference_type pos) const {return *(*this + pos);}
-- 
2.43.0


From a77f7625d2d1122c1bdcce119a671b609cc543ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 71/72] fix: MultiBitVector counted its words in an int while
 building its rank directory

---
 include/sim_ds/MultiBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultiBitVector.hpp b/include/sim_ds/MultiBitVector.hpp
index 1e5a0bb..af5bdf5 100644
--- a/include/sim_ds/MultiBitVector.hpp
+++ b/include/sim_ds/MultiBitVector.hpp
@@ -212,7 +212,7 @@ inline void MultiBitVector<S>::build() {
         auto &tips = rank_tips_[b];
         tips.resize(tips_size);
         size_t count = 0;
-        for (auto i = 0; i < tips.size(); i++) {
+        for (size_t i = 0; i < tips.size(); i++) {
             auto &tip = tips[i];
             tip.L1 = count;
             for (auto offset = 0; offset < kBlocksInTipSize; offset++) {
-- 
2.43.0


From b0efe539aed621f62c3569bfee9b0a85f387d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 72/72] fix: a depth-first walk of a trie used stack space for
 every byte of its longest key

---
 include/sim_ds/string_util/graph_util.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index c75207f..c673f38 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -132,11 +132,20 @@ public:
     
     template <class NODE_ACTION>
     void dfs(size_t node, size_t depth, NODE_ACTION node_action) const {
-        auto& n = container_[node];
-        node_action(n, depth);
-        n.for_each_edge([&](auto c, auto target) {
-            dfs(target, depth+1, node_action);
-        });
+        // The trie is as deep as its longest key.
+        std::vector<std::pair<size_t, size_t>> nodes{{node, depth}};
+        while (not nodes.empty()) {
+            auto p = nodes.back();
+            nodes.pop_back();
+            auto& n = container_[p.first];
+            
+            node_action(n, p.second);
+            auto siblings = nodes.size();
+            n.for_each_edge([&](auto c, auto target) {
+                nodes.emplace_back(target, p.second+1);
+            });
+            std::reverse(nodes.begin() + siblings, nodes.end()); // the first one is next
+        }
     }
     
     template <class NODE_ACTION>
-- 
2.43.0

