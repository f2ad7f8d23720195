From 85e30fe17ab67379ed13a1ceff05044012a48c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 01/14] fix: use 2^hash_bits - 1 as the largest hash value in
 CanBeHashedInto

Dividing 2^128 - 1 by 2^hash_bits yields 2^(128 - hash_bits) - 1, which is
the largest hash value only for 64-bit hashes.
---
 distributed_vector_ole/internal/scalar_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..279cc79 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -131,7 +131,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;  // 2^hash_bits - 1
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +157,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;  // 2^hash_bits - 1
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 0865436bc42b752bea81be68120d1ec7ffa2df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 02/14] fix: never hash into Z_p for moduli with more elements
 than hash values

Only the low 128 bits of the modulus were considered, so that every multiple
of 2^128 and moduli like 2^128 + 1 were accepted.
---
 distributed_vector_ole/internal/scalar_helpers.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 279cc79..fefc7c1 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -123,10 +123,13 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
+    if (NTL::NumBits(NTL::ZZ_p::modulus() - 1) > hash_bits) {
+      return false;  // There are more elements than hash values.
+    }
     uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
-    if (modulus == 0) {  // Modulus is a multiple of 2**128
+    if (modulus == 0) {  // Modulus is 2**128
       return true;
     }
     absl::uint128 max_value = absl::Uint128Max();
-- 
2.43.0


From 6c34013f7fd30633baee6642adf495d52c5176a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 03/14] fix: make the buffer of AESUniformBitGenerator even

A refill encrypts buffer_size / 2 blocks, so with an odd buffer size the last
buffer element was never written, and the generator returned 0 (or a stale
value) in its place, out of step with the keystream.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..034ad8d 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -10,7 +10,7 @@
 namespace distributed_vector_ole {
 
 AESUniformBitGenerator::AESUniformBitGenerator(int64_t buffer_size)
-    : buffer_(buffer_size),  // Make sure buffer size is even.
+    : buffer_(buffer_size),
       elements_used_(
           buffer_size)  // All elements are marked as used in the beginning.
 {}
@@ -20,6 +20,7 @@ mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
   if (buffer_size < 2) {
     buffer_size = 2;
   }
+  buffer_size -= buffer_size % 2;  // Each AES block fills two elements.
   AESUniformBitGenerator result(buffer_size);
   RETURN_IF_ERROR(result.seed(seed));
   return result;
-- 
2.43.0


From 986bc67af8c13169c6280294dd60a06535f07f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 04/14] fix: do not read the nonce through a misaligned pointer

The seed is a span of bytes and need not be aligned to 16 bytes; the
dereferenced uint128 pointer crashed on unaligned seeds at -O2.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 034ad8d..3c29330 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -36,8 +37,8 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
+  std::memcpy(&nonce_, seed.data() + 16,
+              sizeof(nonce_));  // Use second 16 bytes of seed as nonce.
   counter_ = 0;            // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
-- 
2.43.0


From f4f255205c7fc7b149344d2ec68fc385586f63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 05/14] fix: check the reseed interval before refilling the
 buffer

The check came after the refill had already reset elements_used_, so the call
that exceeded the interval threw, but the calls after it returned the blocks
past the interval.
---
 .../aes_uniform_bit_generator.cpp               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 3c29330..1bf8a92 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -51,6 +51,15 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     // separate vector for the nonces which allows the CPU to pipeline calls to
     // AES_encrypt.
     int64_t num_blocks = buffer_size / 2;
+    // Check if refilling the buffer exceeds the reseed interval, before any state
+    // changes, so that later calls fail as well. Since the return type of
+    // operator() is required to be result_type, we have to throw an exception
+    // here.
+    if (counter_ > kReseedInterval - num_blocks) {
+      throw std::runtime_error(
+          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
+                       " calls to this AESUniformBitGenerator"));
+    }
     std::vector<absl::uint128> nonces(num_blocks);
     for (int64_t i = 0; i < num_blocks; i++) {
       nonces[i] = nonce_;
@@ -62,14 +71,6 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     }
     elements_used_ = 0;
     counter_ += num_blocks;
-    // Check if we exceeded the reseed interval. Since the return type of
-    // operator() is required to be result_type, we have to throw an exception
-    // here.
-    if (counter_ > kReseedInterval) {
-      throw std::runtime_error(
-          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
-                       " calls to this AESUniformBitGenerator"));
-    }
   }
   result_type result = buffer_[elements_used_];
   elements_used_++;
-- 
2.43.0


From d40b072276b8bc68fb1c4ad2f2695c71287a9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 06/14] fix: GGMTree::CreateFromSiblingWiseXOR rejects a
 negative missing_index

It was accepted and used as an index, writing before the start of the levels.
---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..b5ed1a4 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -130,6 +130,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (num_leaves <= 0) {
     return mpc_utils::InvalidArgumentError("`num_leaves` must be positive");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   if (missing_index >= num_leaves) {
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
-- 
2.43.0


From c384498051e63b32b5215b7d06045d8e2e674dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 07/14] fix: GGMTree::CreateFromSiblingWiseXOR rejects a key
 list of the wrong length

Too few keys were read past their end, too many gave the tree a wrong arity.
---
 distributed_vector_ole/ggm_tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index b5ed1a4..15849bf 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -152,6 +152,9 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int64_t>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError("`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
-- 
2.43.0


From c33693831d63f747494bca1a5a65672410901beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 08/14] fix: GGMTree::CreateFromSiblingWiseXOR rejects XORs for
 a wrong number of levels

With more levels of XORs than the tree has, levels past the last one were
read and written; only a debug assertion checked for it.
---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 15849bf..6e30c01 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -173,6 +173,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     }
   }
   ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "Dimensions passed in `sibling_wise_xors` do not match `num_leaves`");
+  }
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
   assert(tree->num_levels() == num_levels);
-- 
2.43.0


From ec678de0803be11558307342b1aea96a3f43dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 09/14] fix: GGMTree::Create returns an error for a negative
 arity

Allocating the keys threw std::length_error before the arity was checked.
---
 distributed_vector_ole/ggm_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..1b2f2b7 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -60,7 +60,7 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
-    std::vector<Block> keys(arity);
+    std::vector<Block> keys(arity < 0 ? 0 : arity);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
     }
-- 
2.43.0


From 4e4dbf0a0d653327882dceab9b70440f73c61d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 10/14] fix: XORBlocks indexes blocks with 64 bits

With 2^31 or more blocks on a level the int index overflowed.
---
 distributed_vector_ole/ggm_tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 6e30c01..d688685 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -74,8 +74,8 @@ void XORBlocks(absl::Span<const GGMTree::Block> in,
         batch_size, static_cast<int64_t>(in.size()) - batch * batch_size);
 
     // The blocks in each batch can be XORed 1:1 onto the result.
-    for (int block = 0; block < num_blocks; block++) {
-      int child = batch * batch_size + block;
+    for (int64_t block = 0; block < num_blocks; block++) {
+      int64_t child = batch * batch_size + block;
       out_data[block] ^= in_data[child];
     }
   }
-- 
2.43.0


From 2db41c83c0bbc22d0e42b5ce9d14ac31a98be47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 11/14] fix: MPFSSKnownIndices rejects negative indices and the
 index output.size()

---
 distributed_vector_ole/mpfss_known_indices.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..5bb59b5 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,8 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 ||
+        indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From 2f789a0c28deb77fad8b5342246f0517b68d55fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 12/14] fix: DistributedVectorOLE rejects negative sizes

---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..895283d 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -537,6 +537,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -585,6 +588,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From f979d3051a2574c579e5da1c093f900171cc6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 13/14] fix: SendTrees counts the leaves with 64 bits

---
 distributed_vector_ole/all_but_one_random_ot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 6c10b0d..12e1ee1 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -158,7 +158,7 @@ AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
   int num_trees = static_cast<int>(num_leaves.size());
   // Check the modulus to satisfy statistical security.
   int64_t total_num_leaves =
-      std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
+      std::accumulate(num_leaves.begin(), num_leaves.end(), int64_t(0));
   // Statistical security needed for each leaf to ensure that all leaves are
   // uniform.
   double statistical_security_per_leaf =
-- 
2.43.0


From 82c510fc494de8ee8ca21622712b3f411d11c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 14/14] fix: ScalarVectorGilboaProduct::RunValueProvider counts
 positions with 64 bits

---
 distributed_vector_ole/scalar_vector_gilboa_product.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/scalar_vector_gilboa_product.h b/distributed_vector_ole/scalar_vector_gilboa_product.h
index 2d90fb5..85d22fa 100644
--- a/distributed_vector_ole/scalar_vector_gilboa_product.h
+++ b/distributed_vector_ole/scalar_vector_gilboa_product.h
@@ -174,7 +174,7 @@ mpc_utils::Status ScalarVectorGilboaProduct::RunVectorProvider(
 template <typename T>
 mpc_utils::Status ScalarVectorGilboaProduct::RunValueProvider(
     T x, absl::Span<T> output) {
-  int y_len = output.size();
+  int64_t y_len = output.size();
   if (ScalarHelper<T>::SizeOf() > 16) {
     return mpc_utils::InvalidArgumentError(
         "Integers may be at most 16 bytes long");
-- 
2.43.0

