From fb9f925652fcd7b5099385f94bbbba073f520b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 01/26] fix: memory_layout::flat_index accumulates the stride
 of the dimension it just used

The loop runs from the last dimension to the first, but multiplied the running
stride by strides[d] counted from the first one: wrong for non-square extents.
---
 src/memory_layout/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From 42ff55007b0f2cd0f4e5eec731f0a300b4628d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 02/26] fix: tile_view stores the tile index of every
 dimension, not of the first two

---
 src/memory_layout/tile_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/tile_view.hpp b/src/memory_layout/tile_view.hpp
index ecbe28b..4c5c076 100644
--- a/src/memory_layout/tile_view.hpp
+++ b/src/memory_layout/tile_view.hpp
@@ -22,8 +22,9 @@ public:
             std::vector<tiling_info_dim> tiling_info)
       : tiled(tiled), tiling_info(tiling_info) {
 
-    this->tile_index[0] = tile_index[0];
-    this->tile_index[1] = tile_index[1];
+    for (size_t d = 0; d < dim; d++) {
+      this->tile_index[d] = tile_index[d];
+    }
 
     for (size_t d = 0; d < dim; d++) {
       this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
-- 
2.43.0


From 4e59adf706667161628f2ea2005dab5193ef93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 03/26] fix: iterate_tiles works for dimensions other than two

---
 src/memory_layout/tile_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory_layout/tile_iterator.hpp b/src/memory_layout/tile_iterator.hpp
index 2b485bc..04115c0 100644
--- a/src/memory_layout/tile_iterator.hpp
+++ b/src/memory_layout/tile_iterator.hpp
@@ -20,7 +20,7 @@ iterate_tile_dim(std::vector<T, U> &tiled,
                  const std::vector<tiling_info_dim> &tiling_info,
                  size_t (&tile_index)[dim], F f) {
 
-  memory_layout::tile_view<2, T, U> v(tiled, tile_index, tiling_info);
+  memory_layout::tile_view<dim, T, U> v(tiled, tile_index, tiling_info);
   f(std::move(v));
 }
 
-- 
2.43.0


From b31de620c24c48d77e49759bdb249d05487b734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 04/26] fix: undo_tiling returns the untiled array, for every
 dimension

---
 src/memory_layout/tile_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..4af9144 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -214,7 +214,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
     untiled_strides[d] = tiling_info[d].stride;
   }
 
-  memory_layout::iterate_tiles<2>(
+  memory_layout::iterate_tiles<dim>(
       tiled, tiling_info, [&untiled, &untiled_strides, &tiling_info, &min, &max,
                            &strides](auto view) {
         std::array<size_t, dim> &tile_index = view.get_tile_index();
@@ -238,5 +238,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+
+  return untiled;
 }
 }
-- 
2.43.0


From 4593bb3c81d911c062c1e3ce9f6eda6d46e0f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 05/26] fix: what() of the library exceptions returns a pointer
 that stays valid

It pointed into a temporary string that was destroyed before the caller could
read it.
---
 src/memory_layout/memory_layout_exception.hpp | 4 ++--
 src/util/matrix_multiplication_exception.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..d2b6c85 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -7,11 +7,11 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message): message(std::string("memory_layout_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..a221bc1 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -7,11 +7,11 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message): message(std::string("matrix_multiplication_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From 9345bf81b2b48dddf8d3372274ed342d9a98259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 06/26] fix: blocked index iteration stays inside the range
 when blocks do not divide it

---
 src/memory_layout/index_iterator.hpp | 4 ++--
 src/variants/index_iterator.hpp      | 4 ++--
 src/variants/looped.hpp              | 7 ++++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 96ac854..89bee4f 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -315,14 +315,14 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
           hpx::parallel::for_each_n(hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
+              [&policy, &max, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
                   recursive_min[d] = cur_index[d];
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
 //                                hpx::cout << "recursive_min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 9b493f8..5508c41 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -318,7 +318,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           hpx::parallel::for_each_n(
               hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min,
+              [&policy, &max, &block, f, &recursive_min,
                &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
@@ -326,7 +326,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
                 //                                hpx::cout << "recursive_min:
diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index da42282..facef78 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -161,7 +161,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
-    inner_index_count *= (max[d] - min[d]) / block[d];
+    // round up if the range is not a multiple of the block
+    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
@@ -202,7 +203,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     // hpx::cout << "recursive blocking step" << std::endl << hpx::flush;
     hpx::parallel::for_each_n(
         hpx::parallel::seq, dim_iter, inner_index_count,
-        [dim, policy, &block, f](const std::vector<size_t> &cur_index) {
+        [dim, policy, &max, &block, f](const std::vector<size_t> &cur_index) {
           //                    hpx::cout << "block index ";
           //                    for (size_t d = 0; d < dim; d++) {
           //                        if (d > 0) {
@@ -219,7 +220,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           }
           std::vector<T> recursive_max(dim);
           for (size_t d = 0; d < dim; d++) {
-            recursive_max[d] = cur_index[d] + block[d];
+            recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
           }
           // do recursive blocking
           iterate_indices(policy, recursive_min, recursive_max, f);
-- 
2.43.0


From f5918806bdae4f471959e6c8921ad03e66885096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 07/26] fix: index iteration refuses a policy of another
 dimensionality

---
 src/memory_layout/index_iterator.hpp | 3 +++
 src/variants/index_iterator.hpp      | 3 +++
 src/variants/looped.hpp              | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 89bee4f..21b6162 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -181,6 +181,9 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
   auto pair = policy.pop();
   std::vector<T> &block = std::get<0>(pair);
   std::vector<bool> &parallel_dims = std::get<1>(pair);
+  if (block.size() != dim || parallel_dims.size() != dim) {
+    throw;
+  }
 
   // hpx::cout << "inner min: ";
   // for (size_t i = 0; i < min.size(); i++) {
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 5508c41..b2d2003 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -175,6 +175,9 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
   auto pair = policy.pop();
   std::vector<T> &block = std::get<0>(pair);
   std::vector<bool> &parallel_dims = std::get<1>(pair);
+  if (block.size() != dim || parallel_dims.size() != dim) {
+    throw;
+  }
 
   // hpx::cout << "inner min: ";
   // for (size_t i = 0; i < min.size(); i++) {
diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index facef78..9669ffd 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -155,6 +155,9 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
   //    std::pair<std::vector<T>, const
   //    hpx::parallel::parallel_execution_policy> cur_policy =
   std::vector<T> block = policy.pop();
+  if (block.size() != dim) {
+    throw;
+  }
   //    std::vector<T> block = std::get<0>(cur_policy);
   //    const hpx::parallel::parallel_execution_policy execution = std::get<1>(
   //            cur_policy);
-- 
2.43.0


From cdfb35bbddc58adcf7e771786b69755b7466fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 08/26] fix: algorithms variant stays inside the matrices when
 blocks do not divide N

---
 src/variants/algorithms.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 30f74e3..3cde994 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -171,6 +171,9 @@ public:
           // multiples of 128)
           size_t outer_x = block_x * block_result;
           size_t outer_y = block_y * block_result;
+          // the last blocks may be cut off by the matrix boundary
+          size_t x_end = std::min(block_result, N - outer_x);
+          size_t y_end = std::min(block_result, N - outer_y);
 
           // use small intermediate matrices to reduce conflict misses
           std::vector<double> C_inner(block_result * block_result);
@@ -190,17 +193,19 @@ public:
             //                        size_t k_input_end = std::min(k_block +
             //                        block_input, N);
 
+            size_t k_end = std::min<size_t>(block_input, N - k_block);
+
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t x = 0; x < block_result; x++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t x = 0; x < x_end; x++) {
+              for (size_t k = 0; k < k_end; k++) {
                 A_small[x * block_input + k] =
                     A[(outer_x + x) * N + k_block + k];
               }
             }
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t y = 0; y < block_result; y++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t y = 0; y < y_end; y++) {
+              for (size_t k = 0; k < k_end; k++) {
                 B_small[y * block_input + k] =
                     B[(outer_y + y) * N + k_block + k];
               }
@@ -212,7 +217,7 @@ public:
                 hpx::parallel::seq,
                 index_iterator<double>(C_inner, block_result),
                 block_result * block_result,
-                [this, &A_small, &B_small](
+                [this, k_end, &A_small, &B_small](
                     std::tuple<size_t, size_t, std::reference_wrapper<double>>
                         t) {
                   size_t x = std::get<0>(t);
@@ -221,7 +226,7 @@ public:
 
                   auto A_submatrix_begin = A_small.begin() + x * block_input;
                   auto A_submatrix_end =
-                      A_small.begin() + (x + 1) * block_input;
+                      A_small.begin() + x * block_input + k_end;
                   // assumes transposed input matrix
                   auto B_submatrix_begin = B_small.begin() + y * block_input;
 
@@ -234,8 +239,8 @@ public:
 
           // write (small) block result matrix back into (big) overall result
           // matrix
-          for (size_t x = 0; x < block_result; x++) {
-            for (size_t y = 0; y < block_result; y++) {
+          for (size_t x = 0; x < x_end; x++) {
+            for (size_t y = 0; y < y_end; y++) {
               C[(outer_x + x) * N + (outer_y + y)] =
                   C_inner[x * block_result + y];
             }
-- 
2.43.0


From ec9e3becddca76c56e2fb0c7489996e3cb252b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 09/26] fix: semi variant handles N that is no multiple of its
 block sizes

---
 src/variants/semi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..4914036 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -28,7 +28,8 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+  // rounded up, as the kernel processes 4x2 result components at once
+  size_t N_fixed = (N + 3) / 4 * 4;
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
@@ -75,7 +76,8 @@ std::vector<double> semi::matrix_multiply() {
     double result_component_3_0 = 0.0;
     double result_component_3_1 = 0.0;
 
-    for (size_t k_inner = 0; k_inner < block_input; k_inner++) {
+    size_t k_inner_end = std::min<size_t>(block_input, N - k);
+    for (size_t k_inner = 0; k_inner < k_inner_end; k_inner++) {
       result_component_0_0 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
                               B_conflict[(y + 0) * N_fixed + k + k_inner];
       result_component_0_1 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
-- 
2.43.0


From 5184d42c951b1d94ab2ed0a95cbfec009e975561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 10/26] fix: blocked kernel does not read past the matrices
 when the chunk size does not divide N

---
 src/reference_kernels/kernel.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reference_kernels/kernel.hpp b/src/reference_kernels/kernel.hpp
index 53fe568..3818146 100644
--- a/src/reference_kernels/kernel.hpp
+++ b/src/reference_kernels/kernel.hpp
@@ -3,6 +3,7 @@
 //#include "aligned_allocator.hpp"
 #include <boost/align/aligned_allocator.hpp>
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 
@@ -74,16 +75,17 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
   // recursive parallelization
   for (size_t k_block = 0; k_block < N; k_block += block_input) {
 
-    //        size_t k_max = std::min(k_block + block_input, N);
+    // the last chunk may be cut off by the matrix boundary
+    const size_t k_end = std::min(block_input, N - k_block);
 
     for (size_t i = 0; i < block_result; i++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_end; k++) {
         A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
       }
     }
 
     for (size_t j = 0; j < block_result; j++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_end; k++) {
         B_small[j * block_input + k] = B[(y + j) * N + k_block + k];
       }
     }
@@ -108,7 +110,7 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
         T result_component_3_0 = 0.0;
         T result_component_3_1 = 0.0;
 
-        for (size_t k = 0; k < block_input; k++) {
+        for (size_t k = 0; k < k_end; k++) {
           result_component_0_0 += A_small[(i + 0) * block_input + k] *
                                   B_small[(j + 0) * block_input + k];
           result_component_0_1 += A_small[(i + 0) * block_input + k] *
-- 
2.43.0


From 35fdaa306810c2700ae832b88d50ae2595ae23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 11/26] fix: multiplier uses the blocked kernel only for block
 sizes it can handle

---
 src/variants/components/multiplier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..e030461 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -23,8 +23,8 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
   if (!transposed) {
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
-    // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    // no blocking? (the blocked kernel processes 4x2 result components)
+    if (block_input == 0 || block_result % 4 != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From e0b25b741bf9bdcbae98ec67ed44d020fa40e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 12/26] fix: recursive decomposition handles odd block sizes
 and disabled blocking

---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..4cf23b9 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // compute directly if blocking is disabled (0) or the block cannot be halved
+  if (block_result == 0 || blockSize <= block_result || blockSize % 2 != 0) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From 3e8eaf4f984b867d185de08089fd63ed41f16c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 13/26] fix: schedule construction does not split packages that
 cannot be quartered

---
 src/variants/static_improved.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..a3fecbf 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -132,7 +132,8 @@ static_improved::create_schedule(size_t num_localities) {
       uint64_t smallest_work_difference = max_work - min_work;
       for (size_t j = 0; j < all_work[max_index].size(); j++) {
         matrix_multiply_work &w = all_work[max_index][j];
-        if (w.N <= this->min_work_size) {
+        // packages of odd size cannot be quartered
+        if (w.N <= this->min_work_size || w.N % 2 != 0) {
           continue;
         }
         // split work package between both locations
-- 
2.43.0


From 626ab578cf67f7648b8cae0fb5ac314e56a4f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 14/26] fix: combined variant does not write a shared flag from
 parallel iterations

---
 src/variants/combined.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..2fac910 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -184,10 +184,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
+        policy, min, max, [&C_padded, &A_trans, &B_padded,
                            this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
@@ -319,10 +317,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 3ff553398c9cd9a8dcd0dc4cdec05501e23e6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 15/26] fix: combined variant starts every repetition from a
 zeroed result

---
 src/variants/combined.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 2fac910..1b56ce5 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -174,6 +174,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
 
   for (size_t rep = 0; rep < repetitions; rep++) {
 
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     blocking_pseudo_execution_policy<size_t> policy(3);
     // specify with ascending cache level
     policy.set_final_steps({L1_X, L1_Y, L1_K_STEP});
-- 
2.43.0


From 660851aa1d6517111bc0540607e2928daf74aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:48 +0000
Subject: [PATCH 16/26] fix: kernel_tiled honours a transposed B

---
 src/reference_kernels/kernel_tiled.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..137f934 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -106,7 +106,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
   std::fill(B.begin(), B.end(), 0.0);
   for (size_t y = 0; y < N_org; y++) {
     for (size_t k = 0; k < N_org; k++) {
-      B.at(k * Y_size + y) = B_org.at(k * N + y);
+      B.at(k * Y_size + y) =
+          transposed ? B_org.at(y * N + k) : B_org.at(k * N + y);
     }
   }
 }
-- 
2.43.0


From 9f118e6137e974b2b573d76d71aaa9d60d7f7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 17/26] fix: asking for help multiplies nothing

---
 src/matrix_multiply_application/matrix_multiply.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index bfd2044..ac54fcd 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -74,6 +74,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
       vm["max-relative-work-difference"].as<double>();
 
   if (vm.count("help")) {
+    display_help = true;
     std::cout << desc_commandline << std::endl;
     return hpx::finalize();
   }
@@ -317,6 +318,10 @@ int main(int argc, char *argv[]) {
   int return_value = hpx::init(desc_commandline, argc, argv);
   std::cout << "after HPX" << std::endl;
 
+  if (display_help) {
+    return return_value;
+  }
+
   if (algorithm.compare("kernel_test") == 0) {
     hpx::util::high_resolution_timer t;
     kernel_test::kernel_test m(N, A, B, transposed, repetitions, verbose);
-- 
2.43.0


From 200703723570e69a548764558a5414d7bf066721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 18/26] fix: multBlocked4 sums over every k

---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..0dca857 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k += 1) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From 897eb752d68d64a16a5b180d8fc546c872cb49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 19/26] fix: buffers used with aligned vector loads are aligned

---
 otherExperiments/multGPUASM.cpp   | 4 ++--
 otherExperiments/multRegister.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..1c818d0 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -31,14 +31,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..854bf06 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -18,7 +18,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -38,7 +38,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From 58fdec592592aa11d20bcc6a1e19ae8f403bb36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:02 +0000
Subject: [PATCH 20/26] fix: rectangular print_matrix uses the row length as
 stride

---
 src/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.hpp b/src/util/util.hpp
index a4f6583..887b415 100644
--- a/src/util/util.hpp
+++ b/src/util/util.hpp
@@ -71,7 +71,7 @@ template <typename T, typename Alloc> void print_matrix(size_t N, size_t M, std:
       if (j > 0) {
         hpx::cout << ", ";
       }
-      hpx::cout << m.at(i * N + j);
+      hpx::cout << m.at(i * M + j);
     }
     hpx::cout << std::endl << hpx::flush;
   }
-- 
2.43.0


From ac164141a210218ab8a08f11674f8b72e359e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:53 +0000
Subject: [PATCH 21/26] fix: multRegister without FMA accumulates into the
 right registers

---
 otherExperiments/multRegister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index 854bf06..223c4cf 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -77,7 +77,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_fmadd_pd(Aregister1, Bregister1, resultReg[iii * JJ_BLOCKSIZE + jjj]);
 #else
 		  __m256d temp = _mm256_mul_pd(Aregister1, Bregister1);
-		  resultReg[jjj * JJ_BLOCKSIZE + iii] = _mm256_add_pd(temp, resultReg[jjj * JJ_BLOCKSIZE + iii]);		  
+		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_add_pd(temp, resultReg[iii * JJ_BLOCKSIZE + jjj]);		  
 #endif
 		}	      
 
-- 
2.43.0


From 3fb4e06327351d676aea5262a0e5dc03142377c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:53 +0000
Subject: [PATCH 22/26] fix: multGPUASM multiplies without FMA as well

---
 otherExperiments/multGPUASM.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 1c818d0..fcdc481 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -111,6 +111,26 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 	      resultChunk42 = _mm256_fmadd_pd(AAtemp4, BBtemp2, resultChunk42);
 	      resultChunk43 = _mm256_fmadd_pd(AAtemp4, BBtemp3, resultChunk43);
 	      resultChunk44 = _mm256_fmadd_pd(AAtemp4, BBtemp4, resultChunk44);
+	      #else
+	      resultChunk11 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp1), resultChunk11);
+	      resultChunk12 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp2), resultChunk12);
+	      resultChunk13 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp3), resultChunk13);
+	      resultChunk14 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp4), resultChunk14);
+
+	      resultChunk21 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp1), resultChunk21);
+	      resultChunk22 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp2), resultChunk22);
+	      resultChunk23 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp3), resultChunk23);
+	      resultChunk24 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp4), resultChunk24);
+
+	      resultChunk31 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp1), resultChunk31);
+	      resultChunk32 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp2), resultChunk32);
+	      resultChunk33 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp3), resultChunk33);
+	      resultChunk34 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp4), resultChunk34);
+
+	      resultChunk41 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp1), resultChunk41);
+	      resultChunk42 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp2), resultChunk42);
+	      resultChunk43 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp3), resultChunk43);
+	      resultChunk44 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp4), resultChunk44);
 	      #endif
 
 	      // resultChunk21 = _mm256_fmadd_pd(AAtemp2, BBtemp1, resultChunk21);
-- 
2.43.0


From d14806cb7332470be4d7de68b601a4b5e7f70b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:05 +0000
Subject: [PATCH 23/26] fix: aligned_allocator refuses extents beyond the
 address space

---
 src/aligned_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_allocator.hpp b/src/aligned_allocator.hpp
index 02b6910..36704fd 100644
--- a/src/aligned_allocator.hpp
+++ b/src/aligned_allocator.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstdint>
 #include <memory>
+#include <new>
 
 namespace alignment {
 
@@ -20,6 +22,9 @@ struct aligned_allocator {
     if (data) {
       throw;
     }
+    if (size > (SIZE_MAX - alignment) / sizeof(T)) {
+      throw std::bad_alloc();
+    }
     size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte
     data = new char[size_bytes];
     p = data;
-- 
2.43.0


From 87fa1df799576089f40ebe90cdcd01718ba4705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:21 +0000
Subject: [PATCH 24/26] fix: a result of the wrong size no longer ends the
 program before its check reports it (verbose output)

---
 src/matrix_multiply_application/matrix_multiply.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index ac54fcd..eaf108f 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -233,7 +233,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
             << "s (repetitions = " << repetitions << ")" << std::endl
             << hpx::flush;
 
-  if (verbose >= 2) {
+  if (verbose >= 2 && C.size() >= N * N) {
     hpx::cout << "matrix C:" << std::endl << hpx::flush;
     print_matrix(N, C);
   }
@@ -334,7 +334,7 @@ int main(int argc, char *argv[]) {
               << "] average time per run: " << (duration / repetitions)
               << "s (repetitions = " << repetitions << ")" << std::endl;
 
-    if (verbose >= 2) {
+    if (verbose >= 2 && C.size() >= N * N) {
       std::cout << "non-HPX matrix C:" << std::endl;
       print_matrix_host(N, C);
     }
@@ -348,7 +348,7 @@ int main(int argc, char *argv[]) {
               << "] average time per run: " << (duration / repetitions)
               << "s (repetitions = " << repetitions << ")" << std::endl;
 
-    if (verbose >= 2) {
+    if (verbose >= 2 && C.size() >= N * N) {
       std::cout << "non-HPX matrix C:" << std::endl;
       print_matrix_host(N, C);
     }
@@ -422,7 +422,7 @@ int main(int argc, char *argv[]) {
         std::cout << "error: check failed!" << std::endl;
       }
 
-      if (verbose >= 2) {
+      if (verbose >= 2 && C.size() >= N * N) {
         std::vector<double> diff_matrix(N * N);
         for (size_t k = 0; k < N * N; k++) {
           diff_matrix.at(k) = fabs(Cref.at(k) - C.at(k));
-- 
2.43.0


From 1c9a8154d85628a8fa9f23b91142892b65c18467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 25/26] fix: report the figures of a single run for algorithms
 without repetitions

The looped, semi and algorithms variants multiply once whatever the
number of repetitions, but the average time and the performance were
still computed for all requested repetitions.
---
 src/matrix_multiply_application/matrix_multiply.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index eaf108f..a4cc7a8 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -174,6 +174,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter";
+      repetitions = 1;
     }
     algorithms::algorithms m(N, A, B, block_input, block_result);
     C = m.matrix_multiply();
@@ -189,6 +190,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter";
+      repetitions = 1;
     }
     looped::looped m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
@@ -204,6 +206,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"semi\" doesn't support the "
                    "\"repetitions\" parameter";
+      repetitions = 1;
     }
     semi::semi m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
-- 
2.43.0


From a81296885de0230e24f9e96e39065b02328ee221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 26/26] fix: kernel_tiled: start measuring at zero

The duration of the repetitions was added to whatever the caller's
variable contained.
---
 src/reference_kernels/kernel_tiled.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 137f934..e2d2d3c 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -114,6 +114,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
 
 std::vector<double> kernel_tiled::matrix_multiply(double &duration) {
 
+  duration = 0.0;
+
   // create a matrix of l1 cachable submatrices, caching by tiling, no large
   // strides even without padding
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
-- 
2.43.0

