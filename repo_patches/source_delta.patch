From d1af5b73674aca6153a77f596d5325eccb1a9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:54 +0000
Subject: [PATCH 1/9] fix: compute working set sizes in 64 bits when
 partitioning work

The byte counts of the operands and the aspect ratio of the destination were
computed in 32-bit integers. They overflowed for operands of 2 GB together, or
for a destination with 2^30 rows or columns. Debug builds then stopped on a
failed check and other builds chose the wrong partition.
---
 ruy/block_map.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ruy/block_map.cc b/ruy/block_map.cc
index e04e7af..cd0f5f3 100644
--- a/ruy/block_map.cc
+++ b/ruy/block_map.cc
@@ -136,9 +136,11 @@ BlockMapTraversalOrder GetTraversalOrder(
     int rhs_scalar_size, const CpuCacheParams& cpu_cache_params) {
   static constexpr bool kAnyFractal =
       RUY_OPT(FRACTAL_Z) | RUY_OPT(FRACTAL_U) | RUY_OPT(FRACTAL_HILBERT);
-  const int working_set_size =
-      (lhs_scalar_size * rows_after_rectangularness_division +
-       rhs_scalar_size * cols_after_rectangularness_division) *
+  const std::int64_t working_set_size =
+      (static_cast<std::int64_t>(lhs_scalar_size) *
+           rows_after_rectangularness_division +
+       static_cast<std::int64_t>(rhs_scalar_size) *
+           cols_after_rectangularness_division) *
       depth;
   if (kAnyFractal && (working_set_size > cpu_cache_params.local_cache_size)) {
     if (RUY_OPT(FRACTAL_HILBERT) &&
@@ -159,7 +161,7 @@ int floor_log2_quotient(int num, int denom) {
     return 0;
   }
   int log2_quotient = floor_log2(num) - ceil_log2(denom);
-  if ((denom << (log2_quotient + 1)) <= num) {
+  if ((static_cast<std::int64_t>(denom) << (log2_quotient + 1)) <= num) {
     log2_quotient++;
   }
   return log2_quotient;
@@ -258,9 +260,12 @@ int GetCacheLocalityScore(int block_size_log2, int rows, int cols, int depth,
   }
   const int block_rows = std::min(1 << block_size_log2, rows);
   const int block_cols = std::min(1 << block_size_log2, cols);
-  const int total_read_bytes =
-      (lhs_scalar_size * block_rows + rhs_scalar_size * block_cols) * depth;
-  const int total_read_bytes_log2 = ceil_log2(total_read_bytes);
+  const std::int64_t total_read_bytes =
+      (static_cast<std::int64_t>(lhs_scalar_size) * block_rows +
+       static_cast<std::int64_t>(rhs_scalar_size) * block_cols) *
+      depth;
+  const int total_read_bytes_log2 =
+      static_cast<int>(ceil_log2(total_read_bytes));
   const int nonlocality_log2 =
       total_read_bytes_log2 - floor_log2(cpu_cache_params.local_cache_size);
   // The values here have been tuned on ARM Cortex-A55.
-- 
2.43.0


From bfd45c9d750291616086a2e852d5b506f1de0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:06 +0000
Subject: [PATCH 2/9] fix: account for ejected float matrices as when they were
 cached

Float matrices have no buffer of sums, and none was counted when they entered
the packed matrix cache, but ejecting them subtracted its size. The total
drifted below the memory really held, so the cache outgrew its limit.
---
 ruy/prepacked_cache.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..11ff75a 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -121,7 +121,11 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= DataBytes(packed_matrix);
+  if (!packed_matrix.sums_type.is_floating_point) {
+    // Only integer quantized matrices have a `sums` buffer.
+    buffers_bytes_ -= SumsBytes(packed_matrix);
+  }
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From e475106bf4dcbd2aca78466ec962370d655fb84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:06 +0000
Subject: [PATCH 3/9] Let verification builds choose the default packed matrix
 cache size

---
 ruy/prepacked_cache.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..b5ecd69 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -42,7 +42,13 @@ class PrepackedCache final {
  public:
   enum class Action { kGotExistingEntry, kInsertedNewEntry };
 
+#ifdef RUY_VERIF_PREPACKED_CACHE_MAX_BYTES
+  // Lets verification builds fill the cache with small matrices.
+  static constexpr int kDefaultMaxBuffersBytes =
+      RUY_VERIF_PREPACKED_CACHE_MAX_BYTES;
+#else
   static constexpr int kDefaultMaxBuffersBytes = 1 << 28;
+#endif
 
   // A key in this key-value cache. Equality of keys implies interchangeable
   // packed matrices, so we must be careful to make this Key type specific
-- 
2.43.0


From e3f198f0dc0793053f89bd699707d97c6e4b8f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:16 +0000
Subject: [PATCH 4/9] fix: tell cached matrices with different source layouts
 apart

Matrices sharing a data pointer but differing in storage order, stride or
dimensions could share a packed matrix cache entry, as only the packed
layout was part of the key. The second multiplication then used the packed
form of the first.
---
 ruy/mat.h                      |  5 +++++
 ruy/prepacked_cache.cc         |  2 ++
 ruy/prepacked_cache.h          | 31 ++++++++++++++++++++++---------
 ruy/prepare_packed_matrices.cc |  3 ++-
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/ruy/mat.h b/ruy/mat.h
index bf02c66..13d8216 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -111,6 +111,11 @@ struct MatLayout final {
   Order order = Order::kColMajor;
 };
 
+inline bool operator==(const MatLayout& a, const MatLayout& b) {
+  return a.rows == b.rows && a.cols == b.cols && a.stride == b.stride &&
+         a.order == b.order;
+}
+
 inline MatLayout ToInternal(const Layout& src) {
   MatLayout ret;
   ret.rows = src.rows();
diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 11ff75a..e70d048 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -77,10 +77,12 @@ PrepackedCache::~PrepackedCache() {
 }
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
+                                           const MatLayout& src_layout,
                                            PEMat* packed_matrix) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
+  key.src_layout = src_layout;
   key.packed_layout = packed_matrix->layout;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index b5ecd69..ed28de2 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -58,10 +58,13 @@ class PrepackedCache final {
   // (since they are used to determine whether to allocate a new buffer).
   // So they instead use the source matrix's data pointer. On the other hand,
   // the packed matrix's layout structure is already available by the time we
-  // need to handle Keys, and that's fortunate because it is more specific
-  // than the source matrix's layout: it also encodes details about the kernel's
-  // small-scale block layout. In the past, we made the kernel function pointer
-  // part of the cache key, but all that is relevant here is the packed layout.
+  // need to handle Keys, and it encodes details about the kernel's small-scale
+  // block layout. In the past, we made the kernel function pointer part of the
+  // cache key, but all that is relevant here is the packed layout.
+  //
+  // The source matrix's layout is also needed: matrices sharing a data pointer
+  // but differing in storage order, in stride, or in dimensions that get rounded
+  // up to the same packed dimensions, have different packed contents.
   //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
@@ -74,6 +77,8 @@ class PrepackedCache final {
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
+    // The source matrix's layout.
+    MatLayout src_layout;
     // The packed matrix's layout, see PEMat::layout.
     PMatLayout packed_layout;
     // The packed matrix's zero point (for integer-quantized matrices only).
@@ -81,8 +86,8 @@ class PrepackedCache final {
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data && a.src_layout == b.src_layout &&
+           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -115,13 +120,15 @@ class PrepackedCache final {
   // This is the method by which new matrices are cached, and existing cache
   // entries are queried.
   // `src_data` is the source matrix data pointer.
+  // `src_layout` is the source matrix layout.
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src_data` pointer,
+  //    `src_layout`, and the relevant fields of `packed_matrix`, particularly
+  //    its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -130,7 +137,13 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
-  Action Get(const void* src_data, PEMat* packed_matrix);
+  Action Get(const void* src_data, const MatLayout& src_layout,
+             PEMat* packed_matrix);
+
+  // Variant for use when the source layout is implied by `src_data`.
+  Action Get(const void* src_data, PEMat* packed_matrix) {
+    return Get(src_data, MatLayout(), packed_matrix);
+  }
 
  private:
   void EjectOne();
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..cff5ac5 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,8 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      auto action = cache->Get(params->src[side].data, params->src[side].layout,
+                               &packed_matrix);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From 5dbc4bc04ed27b377483f9e2b45a57b1a055f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:15 +0000
Subject: [PATCH 5/9] fix: do not eject the cached LHS when making room for the
 RHS

When both operands are cached and do not fit together in the packed matrix
cache, inserting the RHS freed the packed LHS that the same multiplication
was about to read.
---
 ruy/prepacked_cache.cc         | 29 ++++++++++++++++++++---------
 ruy/prepacked_cache.h          | 10 +++++++---
 ruy/prepare_packed_matrices.cc |  7 ++++++-
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index e70d048..a50c024 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -78,7 +78,8 @@ PrepackedCache::~PrepackedCache() {
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
                                            const MatLayout& src_layout,
-                                           PEMat* packed_matrix) {
+                                           PEMat* packed_matrix,
+                                           const void* in_use_data) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
@@ -96,32 +97,41 @@ PrepackedCache::Action PrepackedCache::Get(const void* src_data,
 
   // No existing entry found. Allocate new buffers now and insert in the cache.
   const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
-  EjectUntilRoomFor(new_bytes);
+  EjectUntilRoomFor(new_bytes, in_use_data);
   Entry entry{*packed_matrix, timestamp_++};
   cache_.emplace(key, entry);
   buffers_bytes_ += new_bytes;
   return Action::kInsertedNewEntry;
 }
 
-void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes) {
+void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes,
+                                       const void* in_use_data) {
   profiler::ScopeLabel label("PrepackedCacheEjection");
   // While we are above the threshold of ejection, eject the LRU entry.
   while (!cache_.empty() && buffers_bytes_ + new_bytes > max_buffers_bytes_) {
-    EjectOne();
+    if (!EjectOne(in_use_data)) {
+      break;
+    }
   }
 }
 
-void PrepackedCache::EjectOne() {
-  auto oldest = cache_.begin();
-  Timestamp oldest_timestamp = oldest->second.timestamp;
+// Returns false if there is no entry that may be ejected.
+bool PrepackedCache::EjectOne(const void* in_use_data) {
+  auto oldest = cache_.end();
   {
     for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
-      if (itr->second.timestamp < oldest_timestamp) {
+      if (in_use_data && itr->second.packed_matrix.data == in_use_data) {
+        continue;
+      }
+      if (oldest == cache_.end() ||
+          itr->second.timestamp < oldest->second.timestamp) {
         oldest = itr;
-        oldest_timestamp = itr->second.timestamp;
       }
     }
   }
+  if (oldest == cache_.end()) {
+    return false;
+  }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
   buffers_bytes_ -= DataBytes(packed_matrix);
   if (!packed_matrix.sums_type.is_floating_point) {
@@ -130,6 +140,7 @@ void PrepackedCache::EjectOne() {
   }
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
+  return true;
 }
 
 }  // namespace ruy
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index ed28de2..109cdc7 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -137,8 +137,12 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
+  //
+  // If `in_use_data` is not null, it is the `data` pointer of a packed matrix
+  // obtained earlier from this cache and still in use. Its entry is not ejected
+  // to make room for the new entry.
   Action Get(const void* src_data, const MatLayout& src_layout,
-             PEMat* packed_matrix);
+             PEMat* packed_matrix, const void* in_use_data = nullptr);
 
   // Variant for use when the source layout is implied by `src_data`.
   Action Get(const void* src_data, PEMat* packed_matrix) {
@@ -146,8 +150,8 @@ class PrepackedCache final {
   }
 
  private:
-  void EjectOne();
-  void EjectUntilRoomFor(std::ptrdiff_t new_bytes);
+  bool EjectOne(const void* in_use_data);
+  void EjectUntilRoomFor(std::ptrdiff_t new_bytes, const void* in_use_data);
 
   std::unordered_map<Key, Entry, KeyHash> cache_;
   const std::ptrdiff_t max_buffers_bytes_;
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index cff5ac5..1c803fe 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,8 +74,13 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
+      // Making room for the RHS must not eject the LHS, which is already in use.
+      const PEMat& lhs = params->packed_matrix[Side::kLhs];
+      const void* in_use_data =
+          side == Side::kRhs && params->is_prepacked[Side::kLhs] ? lhs.data
+                                                                 : nullptr;
       auto action = cache->Get(params->src[side].data, params->src[side].layout,
-                               &packed_matrix);
+                               &packed_matrix, in_use_data);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From e81db8eaef2bce289fde9b39aca4d5c88d895c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:52 +0000
Subject: [PATCH 6/9] fix: keep the portable path available with RUY_PATHS set

A RUY_PATHS value whose paths are not compiled into a multiplication left no
path to run, and the multiplication failed a check. Paths set explicitly on a
context already include the portable path as the fallback. Treat the
environment variable the same way.
---
 ruy/ctx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..442f464 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -162,7 +162,8 @@ Path Ctx::GetRuntimeEnabledPaths() {
   // User may have set path explicitly in env var.
   Path paths_bitfield = static_cast<Path>(GetHexIntEnvVarOrZero("RUY_PATHS"));
   if (paths_bitfield != Path::kNone) {
-    *paths = paths_bitfield;
+    // As with explicitly set paths, non-arch paths are needed for fallbacks.
+    *paths = paths_bitfield | kNonArchPaths;
     RUY_TRACE_INFO(GET_RUNTIME_ENABLED_PATHS_USING_ENV_VAR);
     return *paths;
   }
-- 
2.43.0


From 1fad89879b6726cc89d6af66379a7d2060104fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:46 +0000
Subject: [PATCH 7/9] fix: stop with a check when memory runs out

A failed request for scratch or cached memory was used as if it had succeeded,
so the multiplication wrote through a null pointer. When the consolidation in
Allocator::FreeAll failed, the allocator still recorded the new size and later
handed out small offsets from a null pointer. Check requests where they are
made, and record a size of zero when consolidation fails.
---
 ruy/allocator.cc       | 9 +++++----
 ruy/prepacked_cache.cc | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..6028137 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -15,6 +15,7 @@ limitations under the License.
 
 #include "ruy/allocator.h"
 
+#include "ruy/check_macros.h"
 #include "ruy/opt_set.h"
 #include "ruy/size_util.h"
 #include "ruy/system_aligned_alloc.h"
@@ -37,9 +38,8 @@ void* Allocator::AllocateFast(std::ptrdiff_t num_bytes) {
 
 void* Allocator::AllocateSlow(std::ptrdiff_t num_bytes) {
   void* p = detail::SystemAlignedAlloc(num_bytes);
-  if (p == nullptr) {
-    return nullptr;
-  }
+  // Callers do not handle allocation failure.
+  RUY_CHECK(p != nullptr);
   fallback_blocks_total_size_ += num_bytes;
   fallback_blocks_.push_back(p);
   return p;
@@ -125,7 +125,8 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  // If that failed, subsequent allocations fall back to AllocateSlow.
+  size_ = ptr_ ? new_size : 0;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index a50c024..a110b10 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -15,6 +15,7 @@ limitations under the License.
 
 #include "ruy/prepacked_cache.h"
 
+#include "ruy/check_macros.h"
 #include "ruy/mat.h"
 #include "ruy/profiler/instrumentation.h"
 #include "ruy/system_aligned_alloc.h"
@@ -29,11 +30,13 @@ namespace {
 std::ptrdiff_t AllocateBuffers(PEMat* packed_matrix) {
   const std::ptrdiff_t data_bytes = DataBytes(*packed_matrix);
   packed_matrix->data = detail::SystemAlignedAlloc(data_bytes);
+  RUY_CHECK(packed_matrix->data != nullptr);
   std::ptrdiff_t sums_bytes = 0;
   if (!packed_matrix->sums_type.is_floating_point) {
     // Integer quantized matrices also need the `sums` buffer.
     sums_bytes = SumsBytes(*packed_matrix);
     packed_matrix->sums = detail::SystemAlignedAlloc(sums_bytes);
+    RUY_CHECK(packed_matrix->sums != nullptr);
   }
   return data_bytes + sums_bytes;
 }
-- 
2.43.0


From 7824601cfa03aaf7004f0439dd7430c427fe9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:52 +0000
Subject: [PATCH 8/9] fix: include cstring in trace.h

---
 ruy/trace.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruy/trace.h b/ruy/trace.h
index 4f5059e..0caafb5 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -21,6 +21,7 @@ limitations under the License.
 #include <algorithm>
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <memory>
 #include <mutex>
 #include <string>
-- 
2.43.0


From 0af29613b208f4069b696d858e2d7c8b9901c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:05 +0000
Subject: [PATCH 9/9] fix: trace the width of the kernel for blocks of columns

---
 ruy/trace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruy/trace.h b/ruy/trace.h
index 0caafb5..6cb7f1a 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -685,7 +685,7 @@ inline std::string str(Path paths) {
       "have %d columns ",                                                      \
       block_map->large_blocks[Side::kRhs],                                     \
       block_map->small_block_dims[Side::kRhs] +                                \
-          block_map->kernel_dims[Side::kLhs],                                  \
+          block_map->kernel_dims[Side::kRhs],                                  \
       block_map->small_block_dims[Side::kRhs]);                                \
   ThreadLocalTrace()->Write(                                                   \
       "Traversal order: %s",                                                   \
-- 
2.43.0

