From 30163e3205fc7958571f7a79e5381b7970e78162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 01/25] fix: undo_tiling returns the untiled array, for any
 number of dimensions

The function ended without a return statement (undefined behaviour) and
iterated over two dimensions whatever its dimension parameter said.
---
 src/memory_layout/tile_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..4af9144 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -214,7 +214,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
     untiled_strides[d] = tiling_info[d].stride;
   }
 
-  memory_layout::iterate_tiles<2>(
+  memory_layout::iterate_tiles<dim>(
       tiled, tiling_info, [&untiled, &untiled_strides, &tiling_info, &min, &max,
                            &strides](auto view) {
         std::array<size_t, dim> &tile_index = view.get_tile_index();
@@ -238,5 +238,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+
+  return untiled;
 }
 }
-- 
2.43.0


From b9f9d495915982aecb092f311f609f0b8c2c3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 02/25] fix: flat_index uses the extents in row-major order

The extents were multiplied up from the slowest dimension although the
index is taken from the fastest, so non-square arrays were addressed
wrongly (undo_tiling of a 2x4 array wrote out of order).
---
 src/memory_layout/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From fadbc11b06bcfd5ac52624ce31c91be2cccc3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 03/25] fix: tile views and tile iteration work for any number
 of dimensions

Iteration always built two-dimensional views and a view copied exactly two
components of its tile index: other dimension counts did not compile, read
out of bounds (1) or left the index uninitialised (3 and more).
---
 src/memory_layout/tile_iterator.hpp | 2 +-
 src/memory_layout/tile_view.hpp     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/memory_layout/tile_iterator.hpp b/src/memory_layout/tile_iterator.hpp
index 2b485bc..04115c0 100644
--- a/src/memory_layout/tile_iterator.hpp
+++ b/src/memory_layout/tile_iterator.hpp
@@ -20,7 +20,7 @@ iterate_tile_dim(std::vector<T, U> &tiled,
                  const std::vector<tiling_info_dim> &tiling_info,
                  size_t (&tile_index)[dim], F f) {
 
-  memory_layout::tile_view<2, T, U> v(tiled, tile_index, tiling_info);
+  memory_layout::tile_view<dim, T, U> v(tiled, tile_index, tiling_info);
   f(std::move(v));
 }
 
diff --git a/src/memory_layout/tile_view.hpp b/src/memory_layout/tile_view.hpp
index ecbe28b..4c5c076 100644
--- a/src/memory_layout/tile_view.hpp
+++ b/src/memory_layout/tile_view.hpp
@@ -22,8 +22,9 @@ public:
             std::vector<tiling_info_dim> tiling_info)
       : tiled(tiled), tiling_info(tiling_info) {
 
-    this->tile_index[0] = tile_index[0];
-    this->tile_index[1] = tile_index[1];
+    for (size_t d = 0; d < dim; d++) {
+      this->tile_index[d] = tile_index[d];
+    }
 
     for (size_t d = 0; d < dim; d++) {
       this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
-- 
2.43.0


From 81b74b0fc7550999b3c9f114c9b55eed5723a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 04/25] fix: exception descriptions do not dangle

what() returned a pointer into a temporary string that was destroyed before
the caller could read it.
---
 src/memory_layout/memory_layout_exception.hpp | 5 +++--
 src/util/matrix_multiplication_exception.hpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..6913d1e 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -7,11 +7,12 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message)
+      : message("memory_layout_exception: " + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..0943fd9 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -7,11 +7,12 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message)
+      : message("matrix_multiplication_exception: " + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From e94cd3d48bb99270b14469168e9f64d7cfe543c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 05/25] fix: blocked kernel stops at the end of the matrix

If block_input does not divide N (the defaults n-value=4, block-input=128
included) the kernel read beyond the rows of A and B and added the products
of foreign components to the result.
---
 src/reference_kernels/kernel.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reference_kernels/kernel.hpp b/src/reference_kernels/kernel.hpp
index 53fe568..fee5e24 100644
--- a/src/reference_kernels/kernel.hpp
+++ b/src/reference_kernels/kernel.hpp
@@ -3,6 +3,7 @@
 //#include "aligned_allocator.hpp"
 #include <boost/align/aligned_allocator.hpp>
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 
@@ -74,16 +75,17 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
   // recursive parallelization
   for (size_t k_block = 0; k_block < N; k_block += block_input) {
 
-    //        size_t k_max = std::min(k_block + block_input, N);
+    // the last chunk is shorter if block_input doesn't divide N
+    const size_t k_max = std::min(block_input, N - k_block);
 
     for (size_t i = 0; i < block_result; i++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_max; k++) {
         A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
       }
     }
 
     for (size_t j = 0; j < block_result; j++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_max; k++) {
         B_small[j * block_input + k] = B[(y + j) * N + k_block + k];
       }
     }
@@ -108,7 +110,7 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
         T result_component_3_0 = 0.0;
         T result_component_3_1 = 0.0;
 
-        for (size_t k = 0; k < block_input; k++) {
+        for (size_t k = 0; k < k_max; k++) {
           result_component_0_0 += A_small[(i + 0) * block_input + k] *
                                   B_small[(j + 0) * block_input + k];
           result_component_0_1 += A_small[(i + 0) * block_input + k] *
-- 
2.43.0


From 07dc4771a2aaefee761b5a998144978eb7819069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 06/25] fix: multiplier uses the blocked kernel only for
 multiples of four

The blocked kernel processes four rows at a time and wrote beyond the result
block for sizes such as 5 or 6.
---
 src/variants/components/multiplier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..f2926dc 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -23,8 +23,8 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
   if (!transposed) {
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
-    // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    // no blocking? (the blocked kernel processes 4x2 components at a time)
+    if (block_input == 0 || block_result % 4 != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From 1d3efccb7c43240e7885fbb6b1bfb0fcf8f8297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 07/25] fix: block-result=0 disables blocking in the recursive
 variants

The documented value 0 recursed down to empty blocks and returned a zero
matrix.
---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..61ac5b2 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // block_result == 0 disables the blocking
+  if (block_result == 0 || blockSize <= block_result) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From 0bddc39d3f21852cdf25fc79ec59b987e0b45fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 08/25] fix: work distribution does not split single components

With min-work-size=0 a 1x1 package was split into four empty ones and the
component was never computed.
---
 src/variants/static_improved.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..42c652e 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -132,7 +132,8 @@ static_improved::create_schedule(size_t num_localities) {
       uint64_t smallest_work_difference = max_work - min_work;
       for (size_t j = 0; j < all_work[max_index].size(); j++) {
         matrix_multiply_work &w = all_work[max_index][j];
-        if (w.N <= this->min_work_size) {
+        // a single component cannot be split
+        if (w.N <= this->min_work_size || w.N < 2) {
           continue;
         }
         // split work package between both locations
-- 
2.43.0


From 0cb70ff98134426e895d8d0d6c2452cdb754059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 09/25] fix: algorithms variant respects the matrix border

If the block sizes do not divide N, the blocks at the border read beyond A
and B, added foreign components to the result and wrote beyond C.
---
 src/variants/algorithms.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 30f74e3..3e980d0 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -172,6 +172,10 @@ public:
           size_t outer_x = block_x * block_result;
           size_t outer_y = block_y * block_result;
 
+          // blocks at the border are smaller if block_result doesn't divide N
+          size_t x_max = std::min<size_t>(block_result, N - outer_x);
+          size_t y_max = std::min<size_t>(block_result, N - outer_y);
+
           // use small intermediate matrices to reduce conflict misses
           std::vector<double> C_inner(block_result * block_result);
           std::fill(C_inner.begin(), C_inner.end(), 0.0);
@@ -187,20 +191,19 @@ public:
           for (size_t k_block = 0; k_block < N; k_block += block_input) {
             // should the matrix be smaller than 128 (all bigger than 128 are
             // also multiples of 128)
-            //                        size_t k_input_end = std::min(k_block +
-            //                        block_input, N);
+            size_t k_max = std::min<size_t>(block_input, N - k_block);
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t x = 0; x < block_result; x++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t x = 0; x < x_max; x++) {
+              for (size_t k = 0; k < k_max; k++) {
                 A_small[x * block_input + k] =
                     A[(outer_x + x) * N + k_block + k];
               }
             }
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t y = 0; y < block_result; y++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t y = 0; y < y_max; y++) {
+              for (size_t k = 0; k < k_max; k++) {
                 B_small[y * block_input + k] =
                     B[(outer_y + y) * N + k_block + k];
               }
@@ -212,7 +215,7 @@ public:
                 hpx::parallel::seq,
                 index_iterator<double>(C_inner, block_result),
                 block_result * block_result,
-                [this, &A_small, &B_small](
+                [this, k_max, &A_small, &B_small](
                     std::tuple<size_t, size_t, std::reference_wrapper<double>>
                         t) {
                   size_t x = std::get<0>(t);
@@ -220,8 +223,7 @@ public:
                   double &value = std::get<2>(t);
 
                   auto A_submatrix_begin = A_small.begin() + x * block_input;
-                  auto A_submatrix_end =
-                      A_small.begin() + (x + 1) * block_input;
+                  auto A_submatrix_end = A_submatrix_begin + k_max;
                   // assumes transposed input matrix
                   auto B_submatrix_begin = B_small.begin() + y * block_input;
 
@@ -234,8 +236,8 @@ public:
 
           // write (small) block result matrix back into (big) overall result
           // matrix
-          for (size_t x = 0; x < block_result; x++) {
-            for (size_t y = 0; y < block_result; y++) {
+          for (size_t x = 0; x < x_max; x++) {
+            for (size_t y = 0; y < y_max; y++) {
               C[(outer_x + x) * N + (outer_y + y)] =
                   C_inner[x * block_result + y];
             }
-- 
2.43.0


From 81e98051638a0bcdcedcb0063b7582307fffce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 10/25] fix: looped variant iterates over incomplete blocks

The number of blocks was rounded down, so that indices beyond the last
complete block (all of them if the block is larger than the matrix) were
skipped.
---
 src/variants/looped.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index da42282..64f66b9 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -161,7 +161,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
-    inner_index_count *= (max[d] - min[d]) / block[d];
+    // round up, the last block is smaller if the range isn't divisible
+    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
@@ -202,7 +203,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     // hpx::cout << "recursive blocking step" << std::endl << hpx::flush;
     hpx::parallel::for_each_n(
         hpx::parallel::seq, dim_iter, inner_index_count,
-        [dim, policy, &block, f](const std::vector<size_t> &cur_index) {
+        [dim, policy, &block, &max, f](const std::vector<size_t> &cur_index) {
           //                    hpx::cout << "block index ";
           //                    for (size_t d = 0; d < dim; d++) {
           //                        if (d > 0) {
@@ -219,7 +220,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           }
           std::vector<T> recursive_max(dim);
           for (size_t d = 0; d < dim; d++) {
-            recursive_max[d] = cur_index[d] + block[d];
+            recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
           }
           // do recursive blocking
           iterate_indices(policy, recursive_min, recursive_max, f);
-- 
2.43.0


From ab71efdd92048b21112244be8a664907d8dbe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 11/25] fix: block-result=0 disables blocking in algorithms and
 looped

The documented value 0 led to a division by zero.
---
 src/variants/algorithms.hpp | 5 +++--
 src/variants/looped.hpp     | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 3e980d0..4838e18 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -124,8 +124,9 @@ private:
 public:
   algorithms(size_t N, std::vector<double> &A, std::vector<double> &B,
              uint64_t block_input, size_t block_result)
-      : N(N), A(A), B(B), block_input(block_input), block_result(block_result) {
-  }
+      : N(N), A(A), B(B), block_input(block_input),
+        // 0 disables the blocking of the result
+        block_result(block_result == 0 ? N : block_result) {}
 
   std::vector<double> matrix_multiply() {
     std::vector<double> C(N * N);
diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index 64f66b9..c398aa4 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -243,8 +243,10 @@ private:
 public:
   looped(size_t N, std::vector<double> &A, std::vector<double> &B,
          uint64_t block_result, uint64_t block_input)
-      : N(N), A(A), B(B), block_result(block_result), block_input(block_input) {
-  }
+      : N(N), A(A), B(B),
+        // 0 disables the blocking of the result
+        block_result(block_result == 0 ? N : block_result),
+        block_input(block_input) {}
 
   std::vector<double> matrix_multiply() {
     std::vector<double> C(N * N);
-- 
2.43.0


From 15c282bd1a0c74a4dcc813bbca3541e0dd83ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 12/25] fix: semi variant respects the matrix border

For sizes that are not multiples of the register block or of block_input the
kernel read and wrote beyond the matrices.
---
 src/variants/semi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..5d42ad5 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -28,7 +28,8 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+  // the kernel processes 4x2 components, needs (zero) padding for other sizes
+  size_t N_fixed = (N + 3) / 4 * 4;
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
@@ -75,7 +76,8 @@ std::vector<double> semi::matrix_multiply() {
     double result_component_3_0 = 0.0;
     double result_component_3_1 = 0.0;
 
-    for (size_t k_inner = 0; k_inner < block_input; k_inner++) {
+    const size_t k_max = std::min<size_t>(block_input, N - k);
+    for (size_t k_inner = 0; k_inner < k_max; k_inner++) {
       result_component_0_0 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
                               B_conflict[(y + 0) * N_fixed + k + k_inner];
       result_component_0_1 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
-- 
2.43.0


From caf480a2e9999da2d2350dcc445e3224886ca0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 13/25] fix: blocked index iteration stays within the given
 range

Blocks at the upper border were not cut off, so that indices beyond the
range were visited if a block does not divide it.
---
 src/memory_layout/index_iterator.hpp | 4 ++--
 src/variants/index_iterator.hpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 96ac854..8cf51f4 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -315,14 +315,14 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
           hpx::parallel::for_each_n(hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
+              [&policy, &block, &max, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
                   recursive_min[d] = cur_index[d];
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
 //                                hpx::cout << "recursive_min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 9b493f8..800896a 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -318,7 +318,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           hpx::parallel::for_each_n(
               hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min,
+              [&policy, &block, &max, f, &recursive_min,
                &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
@@ -326,7 +326,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
                 //                                hpx::cout << "recursive_min:
-- 
2.43.0


From 070aecfecc96c1c51d0c40caff7d04d9d1135b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 14/25] fix: combined variant resets the result for every
 repetition

With --repetitions=r the result was r times the product.
---
 src/variants/combined.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..85ed617 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -174,6 +174,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
 
   for (size_t rep = 0; rep < repetitions; rep++) {
 
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     blocking_pseudo_execution_policy<size_t> policy(3);
     // specify with ascending cache level
     policy.set_final_steps({L1_X, L1_Y, L1_K_STEP});
-- 
2.43.0


From 1aed0da50628abde1d0f09ed7797ad4d222a779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 15/25] fix: combined variant has no shared flag in its
 parallel loop body

The unused flag 'first' was read and written by all work items without
synchronisation.
---
 src/variants/combined.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 85ed617..1b56ce5 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -186,10 +186,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
+        policy, min, max, [&C_padded, &A_trans, &B_padded,
                            this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
@@ -321,10 +319,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From e1b0e01a2f0208cfd83e09879d3cb30bdf05d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 16/25] fix: kernel_tiled honours a transposed B

The flag was ignored, so that (also by default on the command line) A was
multiplied with the transposed of the matrix meant.
---
 src/reference_kernels/kernel_tiled.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..137f934 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -106,7 +106,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
   std::fill(B.begin(), B.end(), 0.0);
   for (size_t y = 0; y < N_org; y++) {
     for (size_t k = 0; k < N_org; k++) {
-      B.at(k * Y_size + y) = B_org.at(k * N + y);
+      B.at(k * Y_size + y) =
+          transposed ? B_org.at(y * N + k) : B_org.at(k * N + y);
     }
   }
 }
-- 
2.43.0


From 38fbc9263ff86f30d5ba3a1c33018890b15617b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 17/25] fix: --help does not multiply

With --algorithm=kernel_test or kernel_tiled the program went on to multiply
matrices that were never created.
---
 src/matrix_multiply_application/matrix_multiply.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index bfd2044..ac54fcd 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -74,6 +74,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
       vm["max-relative-work-difference"].as<double>();
 
   if (vm.count("help")) {
+    display_help = true;
     std::cout << desc_commandline << std::endl;
     return hpx::finalize();
   }
@@ -317,6 +318,10 @@ int main(int argc, char *argv[]) {
   int return_value = hpx::init(desc_commandline, argc, argv);
   std::cout << "after HPX" << std::endl;
 
+  if (display_help) {
+    return return_value;
+  }
+
   if (algorithm.compare("kernel_test") == 0) {
     hpx::util::high_resolution_timer t;
     kernel_test::kernel_test m(N, A, B, transposed, repetitions, verbose);
-- 
2.43.0


From 3162c0fc56fd044b7ad2aaad78012160b5b09df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 18/25] fix: multBlocked4 adds up all products

Only every fourth product was added.
---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..0dca857 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k += 1) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From 5154dad05a6b798d2a0c05b5d2c4bdf78c798273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 19/25] fix: blocks accessed with aligned vector instructions
 are aligned

---
 otherExperiments/multGPUASM.cpp   | 4 ++--
 otherExperiments/multRegister.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..1c818d0 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -31,14 +31,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..854bf06 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -18,7 +18,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -38,7 +38,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From 30f29c0d0d065c188ee9d2a2ed8a02ff9c331fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 20/25] fix: print_matrix prints the rows of rectangular
 matrices

The row length of an N x M matrix is M, as in print_matrix_host.
---
 src/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.hpp b/src/util/util.hpp
index a4f6583..887b415 100644
--- a/src/util/util.hpp
+++ b/src/util/util.hpp
@@ -71,7 +71,7 @@ template <typename T, typename Alloc> void print_matrix(size_t N, size_t M, std:
       if (j > 0) {
         hpx::cout << ", ";
       }
-      hpx::cout << m.at(i * N + j);
+      hpx::cout << m.at(i * M + j);
     }
     hpx::cout << std::endl << hpx::flush;
   }
-- 
2.43.0


From 929e55e52f1447719e9eda2ab5b973aef9b65ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:46 +0000
Subject: [PATCH 21/25] fix: blocked kernel needs no memory for input blocks
 beyond the matrix

---
 src/reference_kernels/kernel.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reference_kernels/kernel.hpp b/src/reference_kernels/kernel.hpp
index fee5e24..9b02a92 100644
--- a/src/reference_kernels/kernel.hpp
+++ b/src/reference_kernels/kernel.hpp
@@ -57,7 +57,10 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
                                std::vector<T> &C, const size_t N,
                                const size_t x, const size_t y,
                                const size_t block_result,
-                               const size_t block_input) {
+                               size_t block_input) {
+
+  // a block larger than the matrix needs no larger buffers
+  block_input = std::min(block_input, N);
 
   std::vector<T, boost::alignment::aligned_allocator<T, 32>> A_small(
       block_input * block_result);
-- 
2.43.0


From d523205d7d235a7bb45a77408a2329b3425f756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:46 +0000
Subject: [PATCH 22/25] fix: algorithms variant needs no memory for blocks
 beyond the matrix

---
 src/variants/algorithms.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 4838e18..c6267e1 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -124,9 +124,13 @@ private:
 public:
   algorithms(size_t N, std::vector<double> &A, std::vector<double> &B,
              uint64_t block_input, size_t block_result)
-      : N(N), A(A), B(B), block_input(block_input),
+      : N(N), A(A), B(B),
+        // blocks larger than the matrix need no larger buffers
+        block_input(std::min<uint64_t>(block_input, N)),
         // 0 disables the blocking of the result
-        block_result(block_result == 0 ? N : block_result) {}
+        block_result(block_result == 0
+                         ? N
+                         : std::min(block_result, std::max<size_t>(N, 1))) {}
 
   std::vector<double> matrix_multiply() {
     std::vector<double> C(N * N);
-- 
2.43.0


From 6cb5235f6f1c646384ec2e580f16d5a0e2608485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 23/25] fix: random matrices of a narrower type stay below 1.0

---
 src/util/create_random_matrix.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/create_random_matrix.hpp b/src/util/create_random_matrix.hpp
index f12d1a7..14a79e1 100644
--- a/src/util/create_random_matrix.hpp
+++ b/src/util/create_random_matrix.hpp
@@ -11,7 +11,15 @@ template <typename T> std::vector<T> create_random_matrix(size_t N) {
 
   std::default_random_engine generator;
   std::uniform_real_distribution<double> distribution(0.0, 1.0);
-  auto myRand = std::bind(distribution, generator);
+  auto draw = std::bind(distribution, generator);
+  // a narrower type may round the largest values up to 1.0
+  auto myRand = [&draw]() {
+    T value = draw();
+    while (value >= T(1)) {
+      value = draw();
+    }
+    return value;
+  };
 
   std::generate(m.begin(), m.end(), myRand);
   return m;
-- 
2.43.0


From 3e4128a55fef2828ef38baa785d581a1a3e8acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:51 +0000
Subject: [PATCH 24/25] fix: blocked index iteration counts blocks in integers

The number of blocks was computed in double precision, so the last block
of a range wider than 2^53 could be lost, and an empty range whose lower
bound is above the upper one was taken for an enormous one.
---
 src/memory_layout/index_iterator.hpp | 14 ++++++++++++--
 src/variants/index_iterator.hpp      | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 8cf51f4..5e967e3 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -171,6 +171,16 @@ private:
   std::vector<std::pair<std::vector<T>, std::vector<bool>>>blocking_configuration;
 };
 
+// number of blocks needed to cover the range from min to max
+template<typename T>
+size_t count_blocks(T min, T max, T block) {
+  if (max <= min) {
+    return 0;
+  }
+  T extent = max - min;
+  return extent / block + (extent % block != 0 ? 1 : 0);
+}
+
 template<size_t dim, typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     std::vector<T> min, std::vector<T> max, F f) {
@@ -262,9 +272,9 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     size_t inner_index_count_remain = 1;
     for (size_t d = 0; d < dim; d++) {
       if (parallel_dims[d]) {
-        inner_index_count_reduced *= static_cast<size_t>(std::ceil(static_cast<double>(max[d] - min[d]) / static_cast<double>(block[d])));
+        inner_index_count_reduced *= count_blocks(min[d], max[d], block[d]);
       } else {
-        inner_index_count_remain *= static_cast<size_t>(std::ceil(static_cast<double>(max[d] - min[d]) / static_cast<double>(block[d])));
+        inner_index_count_remain *= count_blocks(min[d], max[d], block[d]);
       }
     }
 
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 800896a..87b13be 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -165,6 +165,16 @@ private:
       blocking_configuration;
 };
 
+// number of blocks needed to cover the range from min to max
+template<typename T>
+size_t count_blocks(T min, T max, T block) {
+  if (max <= min) {
+    return 0;
+  }
+  T extent = max - min;
+  return extent / block + (extent % block != 0 ? 1 : 0);
+}
+
 template <size_t dim, typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                      std::vector<T> min, std::vector<T> max, F f) {
@@ -257,13 +267,9 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     size_t inner_index_count_remain = 1;
     for (size_t d = 0; d < dim; d++) {
       if (parallel_dims[d]) {
-        inner_index_count_reduced *=
-            static_cast<size_t>(std::ceil(static_cast<double>(max[d] - min[d]) /
-                                          static_cast<double>(block[d])));
+        inner_index_count_reduced *= count_blocks(min[d], max[d], block[d]);
       } else {
-        inner_index_count_remain *=
-            static_cast<size_t>(std::ceil(static_cast<double>(max[d] - min[d]) /
-                                          static_cast<double>(block[d])));
+        inner_index_count_remain *= count_blocks(min[d], max[d], block[d]);
       }
     }
 
-- 
2.43.0


From 3d1f3d379e3d0d0a70c62c0d125914254b0a2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:51 +0000
Subject: [PATCH 25/25] fix: looped blocking takes reversed bounds for an empty
 range

---
 src/variants/looped.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index c398aa4..2a4aaf6 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -162,7 +162,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
     // round up, the last block is smaller if the range isn't divisible
-    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
+    inner_index_count *=
+        max[d] > min[d] ? (max[d] - min[d] + block[d] - 1) / block[d] : 0;
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
-- 
2.43.0

