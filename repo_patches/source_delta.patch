From 70e9bb8df3db49774db7eb3cb791f77c387cce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 01/24] fix: count the cells of a 2D range in SizeType
 arithmetic

The number of cells was computed in the (possibly narrower) index type, so a range over e.g. an
MPI-indexed grid with more than INT_MAX cells overflowed.
---
 include/dlaf/common/range2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/common/range2d.h b/include/dlaf/common/range2d.h
index fd1a5a4..9c64e66 100644
--- a/include/dlaf/common/range2d.h
+++ b/include/dlaf/common/range2d.h
@@ -174,11 +174,11 @@ class IterableRange2D {
 
 public:
   IterableRange2D(index2d_t begin_idx, size2d_t sz)
-      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.rows() * sz.cols()) {}
+      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.linear_size()) {}
 
   IterableRange2D(index2d_t begin_idx, index2d_t end_idx)
       : begin_idx_(begin_idx), ld_(end_idx.row() - begin_idx.row()),
-        i_max_(ld_ * (end_idx.col() - begin_idx_.col())) {
+        i_max_(static_cast<SizeType>(ld_) * (end_idx.col() - begin_idx_.col())) {
     DLAF_ASSERT(begin_idx.row() <= end_idx.row(), begin_idx, end_idx);
     DLAF_ASSERT(begin_idx.col() <= end_idx.col(), begin_idx, end_idx);
   }
-- 
2.43.0


From 5069098912c9ebc2ab3b13867cadd4bc97aeb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 02/24] fix: do not overflow in ceilDiv when num + den - 1 is
 the largest value

num + den was computed first, which overflows although the documented precondition
(num + den - 1 does not overflow) is respected.
---
 include/dlaf/util_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/util_math.h b/include/dlaf/util_math.h
index a0f573f..db63040 100644
--- a/include/dlaf/util_math.h
+++ b/include/dlaf/util_math.h
@@ -82,7 +82,7 @@ constexpr IntType ceilDiv(const IntType num, const IntType den);
 template <typename IntType>
 constexpr auto ceilDiv(const IntType num, const IntType den)
     -> std::enable_if_t<std::is_integral_v<IntType>, IntType> {
-  return (num + den - 1) / den;
+  return (num + (den - 1)) / den;
 }
 #endif
 
-- 
2.43.0


From 3e9713a32f8e9fda708acb41ef333daf343b5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 03/24] fix: release the MPI type held by the target of a
 type_handler move assignment

Move assignment overwrote the handle, leaking the committed MPI_Datatype (and lost the handle on
self-move).
---
 include/dlaf/communication/type_handler.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..cbd2c72 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -13,6 +13,7 @@
 /// @file
 
 #include <type_traits>
+#include <utility>
 
 #include <dlaf/communication/datatypes.h>
 #include <dlaf/communication/error.h>
@@ -57,8 +58,9 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    // The previously held type (if any) is released together with tmp.
+    type_handler tmp(std::move(rhs));
+    std::swap(custom_type_, tmp.custom_type_);
     return *this;
   }
 
-- 
2.43.0


From 82a5f288f6b676e74980e2c36f1e15a0c1f0f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 04/24] fix: return 0 for the element distance of an empty
 range of tiles at the end of the matrix

---
 include/dlaf/matrix/distribution_extensions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dlaf/matrix/distribution_extensions.h b/include/dlaf/matrix/distribution_extensions.h
index 14b55ec..590fa2d 100644
--- a/include/dlaf/matrix/distribution_extensions.h
+++ b/include/dlaf/matrix/distribution_extensions.h
@@ -240,6 +240,9 @@ SizeType global_tile_element_distance(const Distribution& dist, SizeType i_begin
                                       SizeType i_end) noexcept {
   DLAF_ASSERT_HEAVY(i_begin <= i_end, i_begin, i_end);
 
+  if (i_begin == i_end)
+    return 0;
+
   const SizeType el_begin = dist.global_element_from_global_tile_and_tile_element<rc>(i_begin, 0);
 
   if (i_end == dist.nr_tiles().get<rc>())
-- 
2.43.0


From 6e746a90f7c41134b233577ef6852336b393af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 05/24] fix: report no blocks for an empty (local) matrix with
 an offset in its first block

---
 include/dlaf/matrix/distribution.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..a6c5a80 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,22 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_tiles_.rows() > 0 ? util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
+                                                  tiles_per_block<Coord::Row>())
+                                  : 0,
+            nr_tiles_.cols() > 0 ? util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
+                                                  tiles_per_block<Coord::Col>())
+                                  : 0};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {local_nr_tiles_.rows() > 0 ? util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
+                                                  tiles_per_block<Coord::Row>())
+                                  : 0,
+            local_nr_tiles_.cols() > 0 ? util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
+                                                  tiles_per_block<Coord::Col>())
+                                  : 0};
   }
 
   const GlobalElementSize& block_size() const noexcept {
-- 
2.43.0


From a91dfd2c1d7f429e64e73f870d6e179b5eb792ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 06/24] fix: do not truncate the number of skipped blocks when
 normalising the source rank of a distribution

---
 src/matrix/distribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..bb09840 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,10 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot % grid_size_.rows())) %
+                            grid_size_.rows(),
+                        (source_rank_index_.col() + static_cast<int>(div_col.quot % grid_size_.cols())) %
+                            grid_size_.cols()};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 545802304081651afaaa3f945ac822b4f763614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 07/24] fix: provide a full local column of workspace for the
 distributed Givens rotations of the tridiagonal solver

---
 include/dlaf/eigensolver/tridiag_solver/rot.h | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/rot.h b/include/dlaf/eigensolver/tridiag_solver/rot.h
index 1f2960d..478b2d9 100644
--- a/include/dlaf/eigensolver/tridiag_solver/rot.h
+++ b/include/dlaf/eigensolver/tridiag_solver/rot.h
@@ -267,12 +267,6 @@ void applyGivensRotationsToMatrixColumns(
   auto givens_rots_fn = [comm_row_chain = comm_row_chain.sub_pipeline(), tag, dist_sub,
                          mb](std::vector<GivensRotation<T>> rots, std::vector<matrix::Tile<T, D>> tiles,
                              std::vector<matrix::Tile<T, D>> all_ws) mutable {
-    // Note:
-    // It would have been enough to just get the first tile from the beginning, and it would have
-    // worked anyway (thanks to the fact that panel has its own memorychunk and the first tile would
-    // keep alive the entire chunk, so also the part of other tiles, through its memory view).
-    // Anyway, it is more clean to get them all, and then just here use a single one to access the
-    // full column.
     matrix::Tile<T, D>& tile_ws = all_ws[0];
 
     // Note:
@@ -381,16 +375,15 @@ void applyGivensRotationsToMatrixColumns(
   };
 
   // Note:
-  // Using a combination of shrinked distribution and an offset given to the panel, the workspace
-  // is allocated just for the part strictly needed by the range [i_begin, i_end)
-  const matrix::Distribution dist_ws({range_size_limit, 1}, dist.tile_size(), dist.commGridSize(),
-                                     dist.rankIndex(), dist.sourceRankIndex());
-  matrix::Panel<Coord::Col, T, D> workspace(dist_ws, GlobalTileIndex(i_begin, i_begin));
+  // The workspace stores a full local column of the range [i_begin, i_end) contiguously in a single tile.
+  const SizeType m_ws = dist_sub.localSize().rows();
+  Matrix<T, D> workspace(LocalElementSize(m_ws, 1), TileElementSize(m_ws, 1));
 
   const TileCollector tc(i_begin, i_end);
 
   ex::when_all(std::forward<GRSender>(rots_fut), ex::when_all_vector(tc.readwrite(mat)),
-               ex::when_all_vector(select(workspace, workspace.iteratorLocal()))) |
+               ex::when_all_vector(select(
+                   workspace, common::iterate_range2d(workspace.distribution().localNrTiles())))) |
       di::transformDetach(di::Policy<Backend::MC>(), std::move(givens_rots_fn));
 }
 }
-- 
2.43.0


From 1a422e5b6c314a917d9666f50acf84c3a1d03bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 08/24] fix: do not rely on the default allocation layout in
 the tridiagonal solver and in the permutations

---
 .../dlaf/eigensolver/tridiag_solver/impl.h    | 96 ++++++++++++-------
 .../dlaf/eigensolver/tridiag_solver/merge.h   |  4 +-
 include/dlaf/permutations/general/impl.h      | 11 ++-
 3 files changed, 69 insertions(+), 42 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 6bb8020..87b4a73 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -217,26 +217,38 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
     return;
   }
 
+  // Note: the columns of the eigenvector matrix are accessed as arrays, which requires column major layout.
+  if (evecs.allocation_layout() != matrix::AllocationLayout::ColMajor) {
+    Matrix<T, D> col_major_evecs(evecs.distribution(), matrix::AllocationLayout::ColMajor);
+    TridiagSolver<B, D, T>::call(tridiag, evals, col_major_evecs);
+    copy(col_major_evecs, evecs);
+    return;
+  }
+
   // Auxiliary matrix used for the D&C algorithm
   const matrix::Distribution& distr = evecs.distribution();
   const LocalElementSize vec_size(distr.size().rows(), 1);
   const TileElementSize vec_tile_size(distr.tile_size().rows(), 1);
-  WorkSpace<T, D> ws{Matrix<T, D>(distr),                            // e0
-                     Matrix<T, D>(distr),                            // e1
-                     evecs,                                          // e2
-                     evals,                                          // d1
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z0
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z1
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i2
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5b
-                     Matrix<SizeType, D>(vec_size, vec_tile_size)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size),          // d0
-                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size),    // c
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i1
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i3
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size)};  // i4
+  // Note: vectors and columns of a subproblem are accessed as arrays, which requires contiguous elements
+  // independently of the default allocation layout and of the layout of evals.
+  const matrix::AllocationSpec contiguous(matrix::AllocationLayout::ColMajor);
+  Matrix<T, D> contiguous_evals(vec_size, vec_tile_size, contiguous);
+  WorkSpace<T, D> ws{Matrix<T, D>(distr, contiguous),                            // e0
+                     Matrix<T, D>(distr, contiguous),                            // e1
+                     evecs,                                                      // e2
+                     contiguous_evals,                                           // d1
+                     Matrix<T, D>(vec_size, vec_tile_size, contiguous),          // z0
+                     Matrix<T, D>(vec_size, vec_tile_size, contiguous),          // z1
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous),   // i2
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous),   // i5
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous),   // i5b
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size, contiguous),          // d0
+                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size, contiguous),    // c
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, contiguous),   // i1
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, contiguous),   // i3
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, contiguous)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   WorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1),
@@ -269,7 +281,7 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   const SizeType n = evecs.nrTiles().rows();
   copy(ws_hm.i2, ws.i2);
 
-  // Note: ws_hm.d1 is the mirror of ws.d1 which is evals
+  // Note: ws_hm.d1 is the mirror of ws.d1
   applyIndex(0, n, ws_hm.i2, ws_h.d0, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
@@ -280,7 +292,7 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
 template <Backend B, Device D, class T>
 void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>& evals,
                                   Matrix<std::complex<T>, D>& evecs) {
-  Matrix<T, D> real_evecs(evecs.distribution());
+  Matrix<T, D> real_evecs(evecs.distribution(), matrix::AllocationLayout::ColMajor);
   TridiagSolver<B, D, T>::call(tridiag, evals, real_evecs);
 
   // Convert real to complex numbers
@@ -397,27 +409,39 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
     return;
   }
 
+  // Note: the columns of the eigenvector matrix are accessed as arrays, which requires column major layout.
+  if (evecs.allocation_layout() != matrix::AllocationLayout::ColMajor) {
+    Matrix<T, D> col_major_evecs(evecs.distribution(), matrix::AllocationLayout::ColMajor);
+    TridiagSolver<B, D, T>::call(grid, tridiag, evals, col_major_evecs);
+    copy(col_major_evecs, evecs);
+    return;
+  }
+
   // Auxiliary matrix used for the D&C algorithm
   const matrix::Distribution& dist_evecs = evecs.distribution();
   const matrix::Distribution& dist_evals = evals.distribution();
   const matrix::Distribution dist_local({dist_evecs.local_size().cols(), 1}, dist_evecs.tile_size());
 
-  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs),          // e0
-                     Matrix<T, D>(dist_evecs),          // e1
-                     evecs,                             // e2
-                     evals,                             // d1
-                     Matrix<T, D>(dist_evals),          // z0
-                     Matrix<T, D>(dist_evals),          // z1
-                     Matrix<SizeType, D>(dist_evals),   // i2
-                     Matrix<SizeType, D>(dist_evals),   // i5
-                     Matrix<SizeType, D>(dist_local),   // i5b
-                     Matrix<SizeType, D>(dist_evals)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals),          // d0
-                        Matrix<ColType, Device::CPU>(dist_evals),    // c
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i1
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i3
-                        Matrix<SizeType, Device::CPU>(dist_evals)};  // i4
+  // Note: vectors and columns of a subproblem are accessed as arrays, which requires contiguous elements
+  // independently of the default allocation layout and of the layout of evals.
+  const matrix::AllocationSpec contiguous(matrix::AllocationLayout::ColMajor);
+  Matrix<T, D> contiguous_evals(dist_evals, contiguous);
+  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs, contiguous),          // e0
+                     Matrix<T, D>(dist_evecs, contiguous),          // e1
+                     evecs,                                         // e2
+                     contiguous_evals,                              // d1
+                     Matrix<T, D>(dist_evals, contiguous),          // z0
+                     Matrix<T, D>(dist_evals, contiguous),          // z1
+                     Matrix<SizeType, D>(dist_evals, contiguous),   // i2
+                     Matrix<SizeType, D>(dist_evals, contiguous),   // i5
+                     Matrix<SizeType, D>(dist_local, contiguous),   // i5b
+                     Matrix<SizeType, D>(dist_evals, contiguous)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals, contiguous),          // d0
+                        Matrix<ColType, Device::CPU>(dist_evals, contiguous),    // c
+                        Matrix<SizeType, Device::CPU>(dist_evals, contiguous),   // i1
+                        Matrix<SizeType, Device::CPU>(dist_evals, contiguous),   // i3
+                        Matrix<SizeType, Device::CPU>(dist_evals, contiguous)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   DistWorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e0), initMirrorMatrix(ws.e2),
@@ -457,7 +481,7 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const SizeType n = evecs.nrTiles().rows();
   copy(ws.e0, ws_hm.e0);
 
-  // Note: ws_hm.d1 is the mirror of ws.d1 which is evals
+  // Note: ws_hm.d1 is the mirror of ws.d1
   applyIndex(0, n, ws_h.i1, ws_h.d0, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
@@ -484,7 +508,7 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
 template <Backend B, Device D, class T>
 void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device::CPU>& tridiag,
                                   Matrix<T, D>& evals, Matrix<std::complex<T>, D>& evecs) {
-  Matrix<T, D> real_evecs(evecs.distribution());
+  Matrix<T, D> real_evecs(evecs.distribution(), matrix::AllocationLayout::ColMajor);
   TridiagSolver<B, D, T>::call(grid, tridiag, evals, real_evecs);
 
   // Convert real to complex numbers
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index a69457b..60bf6f5 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -119,7 +119,7 @@ struct WorkSpace {
   Matrix<T, D> e1;
   Matrix<T, D>& e2;  // Reference to reuse evecs
 
-  Matrix<T, D>& d1;  // Reference to reuse evals
+  Matrix<T, D>& d1;
 
   Matrix<T, D> z0;
   Matrix<T, D> z1;
@@ -176,7 +176,7 @@ struct DistWorkSpaceHostMirror {
 
 template <class T>
 Matrix<T, Device::CPU> initMirrorMatrix(Matrix<T, Device::GPU>& mat) {
-  return Matrix<T, Device::CPU>(mat.distribution());
+  return Matrix<T, Device::CPU>(mat.distribution(), matrix::AllocationLayout::ColMajor);
 }
 
 template <class T>
diff --git a/include/dlaf/permutations/general/impl.h b/include/dlaf/permutations/general/impl.h
index 0653e5c..ab619ed 100644
--- a/include/dlaf/permutations/general/impl.h
+++ b/include/dlaf/permutations/general/impl.h
@@ -581,7 +581,10 @@ void permuteOnCPU(
     return;
 
   // Create a map from send indices to receive indices (inverse of perms)
-  Matrix<SizeType, D> inverse_perms(perms.distribution());
+  // Note: indices are accessed as arrays, which requires contiguous elements independently of the default
+  // allocation layout.
+  const AllocationSpec contiguous(AllocationLayout::ColMajor);
+  Matrix<SizeType, D> inverse_perms(perms.distribution(), contiguous);
   eigensolver::internal::invertIndex(i_begin, i_end, perms, inverse_perms);
 
   // Local distribution used for packing and unpacking
@@ -591,9 +594,9 @@ void permuteOnCPU(
   // communication data
   const SizeType nvecs = sz_loc.get<C>();
   const Distribution index_dist(LocalElementSize(nvecs, 1), TileElementSize(blk.get<C>(), 1));
-  Matrix<SizeType, D> local2global_index(index_dist);
-  Matrix<SizeType, D> packing_index(index_dist);
-  Matrix<SizeType, D> unpacking_index(index_dist);
+  Matrix<SizeType, D> local2global_index(index_dist, contiguous);
+  Matrix<SizeType, D> packing_index(index_dist, contiguous);
+  Matrix<SizeType, D> unpacking_index(index_dist, contiguous);
 
   // Local matrices used for packing data for communication. Both matrices are in column-major order.
   // The particular constructor is used on purpose to guarantee that columns are stored contiguosly,
-- 
2.43.0


From 5d3648a642dbc9479a92caa837e296104e7bfc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 09/24] fix: use a deflation tolerance relative to the norm of
 the matrix in the tridiagonal solver

---
 .../dlaf/eigensolver/tridiag_solver/merge.h   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index 60bf6f5..c661613 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -241,12 +241,15 @@ auto maxVectorElement(const SizeType i_begin, const SizeType i_end, Matrix<const
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_calc_fn));
 }
 
-// The tolerance calculation is the same as the one used in LAPACK's stedc implementation [1].
+// The tolerance calculation corresponds to the one used in LAPACK's stedc implementation [1].
+//
+// Note that LAPACK scales the matrix to have norm 1. Here the matrix is not scaled, therefore z, which
+// is normalized, has to be scaled with rho to be comparable with d.
 //
 // [1] LAPACK 3.10.0, file dlaed2.f, line 315, variable TOL
-template <class T>
-auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T, Device::CPU>& d,
-                   Matrix<const T, Device::CPU>& z) {
+template <class T, class RhoSender>
+auto calcTolerance(const SizeType i_begin, const SizeType i_end, RhoSender&& rho,
+                   Matrix<const T, Device::CPU>& d, Matrix<const T, Device::CPU>& z) {
   namespace ex = pika::execution::experimental;
   namespace di = dlaf::internal;
   using pika::execution::thread_stacksize;
@@ -254,11 +257,11 @@ auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T,
   auto dmax = maxVectorElement(i_begin, i_end, d);
   auto zmax = maxVectorElement(i_begin, i_end, z);
 
-  auto tol_fn = [](T dmax, T zmax) {
-    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, zmax);
+  auto tol_fn = [](T rho, T dmax, T zmax) {
+    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, rho * zmax);
   };
 
-  return ex::when_all(std::move(dmax), std::move(zmax)) |
+  return ex::when_all(std::forward<RhoSender>(rho), std::move(dmax), std::move(zmax)) |
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_fn)) |
          // TODO: This releases the tiles that are kept in the operation state.
          // This is a temporary fix and needs to be replaced by a different
@@ -1105,7 +1108,7 @@ void mergeSubproblems(const SizeType i_begin, const SizeType i_split, const Size
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
@@ -1848,7 +1851,7 @@ void mergeDistSubproblems(comm::CommunicatorPipeline<comm::CommunicatorType::Ful
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
-- 
2.43.0


From 760349fbf9245f651fa3316fe195fffabff476da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 10/24] fix: use at least one block of the input per 1D block
 in the band to tridiagonal reduction

---
 include/dlaf/eigensolver/internal/get_1d_block_size.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/internal/get_1d_block_size.h b/include/dlaf/eigensolver/internal/get_1d_block_size.h
index 83e9da1..975883c 100644
--- a/include/dlaf/eigensolver/internal/get_1d_block_size.h
+++ b/include/dlaf/eigensolver/internal/get_1d_block_size.h
@@ -15,14 +15,14 @@
 
 namespace dlaf::eigensolver::internal {
 
-// Returns max(1, getTuneParameters().eigensolver_min_band / nb * nb).
+// Returns max(nb, getTuneParameters().band_to_tridiag_1d_block_size_base / nb * nb).
 inline SizeType get1DBlockSize(const SizeType nb) noexcept {
   const SizeType nb_base = getTuneParameters().band_to_tridiag_1d_block_size_base;
 
   DLAF_ASSERT(nb >= 1, nb);
   DLAF_ASSERT(nb_base >= 1, nb_base);
 
-  return std::max<SizeType>(1, nb_base / nb * nb);
+  return std::max<SizeType>(nb, nb_base / nb * nb);
 }
 
 }
-- 
2.43.0


From 4b5e6cf526140d91711ea08af995f2cd79231574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 11/24] fix: distribute the eigenvectors returned by the
 eigensolvers as the input matrix

---
 include/dlaf/eigensolver/eigensolver.h     | 2 +-
 include/dlaf/eigensolver/gen_eigensolver.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 969c3cd..687fb30 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -221,7 +221,7 @@ EigensolverResult<T, D> hermitian_eigensolver(comm::CommunicatorGrid& grid, blas
   const SizeType size = mat.size().rows();
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat.distribution());
 
   hermitian_eigensolver<B, D, T>(grid, uplo, mat, eigenvalues, eigenvectors, eigenvalues_index_begin,
                                  eigenvalues_index_end);
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index 4d24778..feb31d1 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -156,7 +156,7 @@ EigensolverResult<T, D> hermitian_generalized_eigensolver(comm::CommunicatorGrid
 
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat_a.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat_a.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat_a.distribution());
 
   hermitian_generalized_eigensolver<B, D, T>(grid, uplo, mat_a, mat_b, eigenvalues, eigenvectors,
                                              factorization, eigenvalues_index_begin,
-- 
2.43.0


From af0e06306aabf5c668a23ec6e132c54fa5924b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 12/24] fix: refuse sub-views with a negative offset or size

---
 include/dlaf/memory/memory_view.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dlaf/memory/memory_view.h b/include/dlaf/memory/memory_view.h
index 0ea78b0..5ba9b6b 100644
--- a/include/dlaf/memory/memory_view.h
+++ b/include/dlaf/memory/memory_view.h
@@ -89,12 +89,16 @@ public:
   MemoryView(const MemoryView& memory_view, SizeType offset, SizeType size)
       : memory_(size > 0 ? memory_view.memory_ : nullptr),
         offset_(size > 0 ? offset + memory_view.offset_ : 0), size_(size) {
+    DLAF_ASSERT(offset >= 0, offset);
+    DLAF_ASSERT(size >= 0, size);
     DLAF_ASSERT(offset + size <= memory_view.size_, offset, size, memory_view.size_);
   }
   template <class U = T, class = typename std::enable_if_t<std::is_const_v<U> && std::is_same_v<T, U>>>
   MemoryView(const MemoryView<ElementType, D>& memory_view, SizeType offset, SizeType size)
       : memory_(size > 0 ? memory_view.memory_ : nullptr),
         offset_(size > 0 ? offset + memory_view.offset_ : 0), size_(size) {
+    DLAF_ASSERT(offset >= 0, offset);
+    DLAF_ASSERT(size >= 0, size);
     DLAF_ASSERT(offset + size <= memory_view.size_, offset, size, memory_view.size_);
   }
 
-- 
2.43.0


From d5bbc1922a883853e6194f53eba0298a021bfcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 13/24] fix: release a live sub-pipeline when another pipeline
 is moved into it

---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From 941d69ba809e1dc09015f8354383c1399d41f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 14/24] fix: check the offset of the distribution of a new
 matrix before it is moved from

---
 include/dlaf/matrix/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..ab726dd 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -459,8 +459,8 @@ public:
 protected:
   Matrix(Distribution distribution, AllocationLayout alloc)
       : internal::MatrixBase{std::move(distribution)}, allocation_layout_(alloc) {
-    DLAF_ASSERT((distribution.offset() == GlobalElementIndex{0, 0}), "not supported",
-                distribution.offset());
+    DLAF_ASSERT((this->distribution().offset() == GlobalElementIndex{0, 0}), "not supported",
+                this->distribution().offset());
   }
 
   struct SubPipelineTag {};
-- 
2.43.0


From 8066721d68534e55abbcde5c2152d9ed57861c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 15/24] fix: give sub-pipelined matrices the allocation layout
 of their matrix

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index ab726dd..c770262 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -464,7 +464,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From 3bcef530a79278e16cb92602581723c256c1b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 16/24] fix: give every tile of a matrix redistribution its own
 message tag

The tag mixed the global tile index with the local leading dimension, so
that different tiles exchanged by the same two ranks could share a tag and
be received in the wrong place.
---
 include/dlaf/matrix/copy.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..c385293 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -177,13 +177,17 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
   auto tag = [dist = src_retiled.distribution()](GlobalTileIndex ij) -> comm::IndexT_MPI {
     // Note:
     // Source distribution is used as reference for both sending and receiving side.
-    // The tag is computed as a function of local tile index, in order to keep its value as small as
-    // possible. Moreover, since the local size of the matrix might change on different ranks, linear
-    // local tile index is computed using a rank-independent ld.
+    // The tag is computed as a function of the local tile index on the rank owning the tile in the
+    // source distribution, in order to keep its value as small as possible. Moreover, since the local
+    // size of the matrix might change on different ranks, linear local tile index is computed using a
+    // rank-independent ld.
     const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    const SizeType mt = dist.block_size().rows() / dist.tile_size().rows();
+    const SizeType nt = dist.block_size().cols() / dist.tile_size().cols();
+    const LocalTileIndex source_ij_lc{ij.row() / (mt * size.rows()) * mt + ij.row() % mt,
+                                      ij.col() / (nt * size.cols()) * nt + ij.col() % nt};
+    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), mt * size.rows()) * mt;
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From 7943d48b865694710599abd2ab21ef103d53ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 17/24] fix: respect the band size in the diagonal tiles of
 random banded matrices

set_random_hermitian_banded filled whole diagonal tiles, including elements
farther from the diagonal than the band size.
---
 include/dlaf/util_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/util_matrix.h b/include/dlaf/util_matrix.h
index ea8a421..f8b083b 100644
--- a/include/dlaf/util_matrix.h
+++ b/include/dlaf/util_matrix.h
@@ -333,13 +333,15 @@ namespace internal {
 
 template <class T>
 void set_diagonal_tile(const Tile<T, Device::CPU>& tile, internal::getter_random<T>& random_value,
-                       SizeType offset_value) {
+                       SizeType offset_value, std::optional<SizeType> band_size = std::nullopt) {
   // DIAGONAL
   // for diagonal tiles get just lower matrix values and set value for both
   // straight and transposed indices
   for (SizeType j = 0; j < tile.size().cols(); ++j) {
     for (SizeType i = 0; i < j; ++i) {
       auto value = random_value();
+      if (band_size && j - i > *band_size)
+        value = T(0);
 
       tile(TileElementIndex{i, j}) = value;
       tile(TileElementIndex{j, i}) = dlaf::conj(value);
@@ -442,7 +444,7 @@ void set_random_hermitian_with_offset(Matrix<T, Device::CPU>& matrix, const Size
     auto set_hp_f = [=](const TileType& tile) {
       internal::getter_random<T> random_value(seed);
       if (ij.row() == ij.col())
-        internal::set_diagonal_tile(tile, random_value, offset_value);
+        internal::set_diagonal_tile(tile, random_value, offset_value, band_size);
       else
         internal::set_lower_and_upper_tile(tile, random_value, full_tile_size, ij, dist, band_size);
     };
-- 
2.43.0


From a690a88f1a701dfaf77ff74ae8534c0f89dba029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 18/24] fix: forget the element offset of a panel when its
 range is set by tiles

After setRangeStart(GlobalElementIndex) a later setRange or
setRangeStart(GlobalTileIndex) kept the offset in the first tile.
---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..8e2a5be 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -170,6 +170,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
                 bias_);
@@ -325,6 +326,7 @@ protected:
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     end_ = end_idx.get(coord);
     end_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(end_);
-- 
2.43.0


From 8bb20de1cec995340dad44063ea0eed3b8f86fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 19/24] fix: keep offset and block size in the distribution of
 transposed panels

---
 include/dlaf/matrix/panel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 8e2a5be..688d8d1 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -489,9 +489,10 @@ private:
   using BaseT = Panel<orthogonal(axis), const T, D, StoreTransposed::No>;
 
   static matrix::Distribution transposeDist(const matrix::Distribution& dist) {
-    return {common::transposed(dist.size()), common::transposed(dist.tile_size()),
-            common::transposed(dist.commGridSize()), common::transposed(dist.rankIndex()),
-            common::transposed(dist.sourceRankIndex())};
+    return {common::transposed(dist.size()),      common::transposed(dist.block_size()),
+            common::transposed(dist.tile_size()), common::transposed(dist.commGridSize()),
+            common::transposed(dist.rankIndex()), common::transposed(dist.sourceRankIndex()),
+            common::transposed(dist.offset())};
   }
 
 public:
-- 
2.43.0


From 1d0a282f38d03ed9e7c986746b2d2ac9e318e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 20/24] fix: print the number of pipelines of the communicator
 grid with the tune parameters

---
 src/tune.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tune.cpp b/src/tune.cpp
index 6561638..76dd97b 100644
--- a/src/tune.cpp
+++ b/src/tune.cpp
@@ -34,6 +34,7 @@ std::ostream& operator<<(std::ostream& os, const TuneParameters& params) {
      << std::endl;
   os << "  bt_band_to_tridiag_hh_apply_group_size = " << params.bt_band_to_tridiag_hh_apply_group_size
      << std::endl;
+  os << "  communicator_grid_num_pipelines = " << params.communicator_grid_num_pipelines << std::endl;
   return os;
 }
 
-- 
2.43.0


From 256b056d362500c228549e195e27adc78d8735dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 21/24] fix: refuse malformed numbers in DLAF environment
 variables

std::stoull and friends stop at the first invalid character and stoull wraps
negative numbers, so DLAF_... values such as '10,5' or '-1' were silently used
as something else.
---
 src/init.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index a709ca4..4850e30 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -156,21 +156,34 @@ struct parseFromString {
 template <>
 struct parseFromString<std::size_t> {
   static std::optional<std::size_t> call(const std::string& var) {
-    return std::stoull(var);
+    std::size_t pos;
+    const std::size_t val = std::stoull(var, &pos);
+    // Note: stoull stops at the first invalid character and silently wraps negative numbers.
+    if (pos != var.size() || var.find('-') != std::string::npos)
+      return std::nullopt;
+    return val;
   }
 };
 
 template <>
 struct parseFromString<SizeType> {
   static std::optional<SizeType> call(const std::string& var) {
-    return std::stoll(var);
+    std::size_t pos;
+    const SizeType val = std::stoll(var, &pos);
+    if (pos != var.size())
+      return std::nullopt;
+    return val;
   }
 };
 
 template <>
 struct parseFromString<double> {
   static std::optional<double> call(const std::string& var) {
-    return std::stod(var);
+    std::size_t pos;
+    const double val = std::stod(var, &pos);
+    if (pos != var.size())
+      return std::nullopt;
+    return val;
   }
 };
 
-- 
2.43.0


From 256a467318631c5f30165e6ece8cad68055b081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 22/24] fix: never hand out the context of a live grid

After a grid was freed, dlaf_create_grid computed the context of a grid that is
still alive and returned it without creating the new grid.
---
 src/c_api/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index 3793bb4..9206541 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -28,7 +28,10 @@ std::unordered_map<int, dlaf::comm::CommunicatorGrid> dlaf_grids;
 int dlaf_create_grid(MPI_Comm comm, int nprow, int npcol, char order) noexcept {
   // dlaf_context starts from INT_MAX to reduce the likelihood of clashes with blacs contexts
   // blacs starts to number contexts from 0
-  int dlaf_context = std::numeric_limits<int>::max() - static_cast<int>(std::size(dlaf_grids));
+  // contexts of freed grids can be reused, but not the ones of the grids which are still alive
+  int dlaf_context = std::numeric_limits<int>::max();
+  while (dlaf_grids.count(dlaf_context) > 0)
+    --dlaf_context;
 
   auto dlaf_order = char2order(order);
 
-- 
2.43.0


From c2cb5017a5e8091076e7cbed2c27780d332e027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:05 +0000
Subject: [PATCH 23/24] fix: tile operations on empty tiles

lacpy of an empty region, stedc and scaleCol on empty tiles, create_data and
Duplicate of tiles without rows or columns dereferenced element (0, 0) or used
a zero leading dimension.
---
 include/dlaf/lapack/tile.h      | 8 ++++++++
 include/dlaf/matrix/copy_tile.h | 7 +++++--
 include/dlaf/matrix/tile.h      | 2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/lapack/tile.h b/include/dlaf/lapack/tile.h
index 4a99620..bd65fba 100644
--- a/include/dlaf/lapack/tile.h
+++ b/include/dlaf/lapack/tile.h
@@ -90,6 +90,9 @@ void lacpy(TileElementSize region, TileElementIndex in_idx, const Tile<const T,
   DLAF_ASSERT_MODERATE(out_idx.isIn(out.size() - region + TileElementSize(1, 1)),
                        "Region goes out of bounds for `out`!", region, out_idx, out);
 
+  if (region.isEmpty())
+    return;
+
   common::internal::SingleThreadedBlasScope single;
   lapack::lacpy(blas::Uplo::General, region.rows(), region.cols(), in.ptr(in_idx), in.ld(),
                 out.ptr(out_idx), out.ld());
@@ -469,6 +472,9 @@ void stedc(const Tile<T, Device::CPU>& tridiag, const Tile<T, Device::CPU>& evec
   DLAF_ASSERT(tridiag.size().rows() == evecs.size().rows(), tridiag, evecs);
   DLAF_ASSERT(tridiag.size().cols() == 2, tridiag);
 
+  if (evecs.size().isEmpty())
+    return;
+
   // In lapackpp see `util.hh` and `job_comp2char()` and `enum class Job`
   // Note that `lapack::Job::Vec` corresponds to `compz=I` in the LAPACK
 
@@ -482,6 +488,8 @@ template <class T>
 void scaleCol(T alpha, SizeType col, const Tile<T, Device::CPU>& tile) {
   DLAF_ASSERT(col >= 0, col);
   DLAF_ASSERT(tile.size().cols() > col, tile, col);
+  if (tile.size().isEmpty())
+    return;
   common::internal::SingleThreadedBlasScope single;
   blas::scal(tile.size().rows(), alpha, tile.ptr(TileElementIndex(0, col)), 1);
 }
diff --git a/include/dlaf/matrix/copy_tile.h b/include/dlaf/matrix/copy_tile.h
index 302ca59..ca11941 100644
--- a/include/dlaf/matrix/copy_tile.h
+++ b/include/dlaf/matrix/copy_tile.h
@@ -12,6 +12,7 @@
 
 /// @file
 
+#include <algorithm>
 #include <cstddef>
 #include <type_traits>
 #include <utility>
@@ -199,7 +200,8 @@ struct Duplicate {
   Tile<T, Destination> operator()(const Tile<const T, Source>& source, Ts&&... ts) const {
     auto source_size = source.size();
     dlaf::memory::MemoryView<T, Destination> mem_view(source_size.linear_size());
-    Tile<T, Destination> destination(source_size, std::move(mem_view), source_size.rows());
+    Tile<T, Destination> destination(source_size, std::move(mem_view),
+                                     std::max<SizeType>(1, source_size.rows()));
     internal::copy(source, destination, std::forward<decltype(ts)>(ts)...);
     return Tile<T, Destination>(std::move(destination));
   }
@@ -219,7 +221,8 @@ struct DuplicateNoCopy {
   Tile<T, Destination> operator()(const Tile<const T, Source>& source) const {
     auto source_size = source.size();
     dlaf::memory::MemoryView<T, Destination> mem_view(source_size.linear_size());
-    Tile<T, Destination> destination(source_size, std::move(mem_view), source_size.rows());
+    Tile<T, Destination> destination(source_size, std::move(mem_view),
+                                     std::max<SizeType>(1, source_size.rows()));
     return Tile<T, Destination>(std::move(destination));
   }
 };
diff --git a/include/dlaf/matrix/tile.h b/include/dlaf/matrix/tile.h
index 77901fa..8630dc2 100644
--- a/include/dlaf/matrix/tile.h
+++ b/include/dlaf/matrix/tile.h
@@ -464,7 +464,7 @@ private:
 /// Create a common::Buffer from a Tile.
 template <class T, Device D>
 auto create_data(const Tile<T, D>& tile) {
-  return common::DataDescriptor<T>(tile.ptr({0, 0}), tile.size().cols(), tile.size().rows(), tile.ld());
+  return common::DataDescriptor<T>(tile.ptr(), tile.size().cols(), tile.size().rows(), tile.ld());
 }
 
 namespace internal {
-- 
2.43.0


From 793d1c74ab35a0fcc80b75ec345bf88caf67586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:24 +0000
Subject: [PATCH 24/24] fix: merge adjacent blocks when a DataDescriptor is
 made from other data

---
 include/dlaf/common/data_descriptor.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/dlaf/common/data_descriptor.h b/include/dlaf/common/data_descriptor.h
index fb6db14..c089a12 100644
--- a/include/dlaf/common/data_descriptor.h
+++ b/include/dlaf/common/data_descriptor.h
@@ -80,12 +80,9 @@ struct DataDescriptor {
   /// Create a DataDescriptor from any given Data concept.
   /// It allows to use the DataDescriptor as "base-class" for any implementation of Data concept.
   template <class Data, class T_ = T, class = std::enable_if_t<std::is_const_v<T_>>>
-  DataDescriptor(const Data& data) {
-    data_ = data_pointer(data);
-    nblocks_ = data_nblocks(data);
-    blocksize_ = data_blocksize(data);
-    stride_ = data_stride(data);
-  }
+  DataDescriptor(const Data& data)
+      : DataDescriptor(data_pointer(data), data_nblocks(data), data_blocksize(data),
+                       data_stride(data)) {}
 
   /// Pointer to data.
   T* data() const noexcept {
-- 
2.43.0

