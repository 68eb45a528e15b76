From 8c8b18404c7f286c4b5fa62cd4e926c8bb3ed1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:21 +0000
Subject: [PATCH 01/36] fix: local linear index of a global linear index for
 general decompositions

The conversion applied the local strides to the global vector index and subtracted a
global linear index, which is only right if the local and global strides coincide.
---
 src/fullgrid/DistributedFullGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..505197e 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -811,9 +811,10 @@ IndexType DistributedFullGrid<FG_ELEMENT>::getLocalLinearIndex(IndexType globLin
   globAxisIndex.resize(dim_);
   getGlobalVectorIndex(globLinIndex, globAxisIndex);
 
-  if (this->isGlobalIndexHere(globAxisIndex)) {
+  static thread_local IndexVector locAxisIndex(dim_);
+  if (this->getLocalVectorIndex(globAxisIndex, locAxisIndex)) {
     // convert to local linear index
-    return getLocalLinearIndex(globAxisIndex) - this->myPartitionsFirstGlobalIndex_;
+    return getLocalLinearIndex(locAxisIndex);
   } else {
     return -1;
   }
-- 
2.43.0


From 25618753654c10885576056122c97677427d6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 02/36] fix: non-periodic biorthogonal basis used the full
 weighting kernels

---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From de9c25c2dc2f625d09c0474c684cf596a4b89930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:17 +0000
Subject: [PATCH 03/36] fix: zeroing the Kahan buffer used the size of a
 pointer

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..889e824 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From 9db431c7eee9bd4f46ac0da827ccc8dd16b22b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:17 +0000
Subject: [PATCH 04/36] fix: maximum subspace coefficient was never negative

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 889e824..d091182 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -732,7 +732,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From 118291acf2e3c9bdb9386f57551c733658c4d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:17 +0000
Subject: [PATCH 05/36] fix: subspace search started before the first subspace
 after a miss

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index d091182..ad0a638 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -580,7 +580,8 @@ DistributedSparseGridUniform<FG_ELEMENT>::getIndexInRange(const LevelVector& l,
   }
 #endif  // NDEBUG
   auto start = levels_.cbegin();
-  std::advance(start, lowerBound);
+  // lowerBound may be the "not found" result (-1) of the previous search
+  std::advance(start, std::max<IndexType>(lowerBound, 0));
   auto found = std::lower_bound(start, levels_.end(), l);
   if (found != levels_.end() && *found == l) {
     return static_cast<SubspaceIndexType>(std::distance(levels_.cbegin(), found));
-- 
2.43.0


From b59fec06747a48eaee2fa2df946e79da75dc33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 06/36] fix: classical scheme gave dimensions with lmin == lmax
 another dimension's level

---
 src/combischeme/CombiMinMaxScheme.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 35ebc4b..8835e44 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -44,9 +44,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   // re-insert dummy dimensions left out
   for (size_t i = 0; i < dummyDims.size(); ++i) {
     for (size_t j = 0; j < levels_.size(); ++j) {
-      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[i]);
+      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[dummyDims[i]]);
     }
-    lmin_[dummyDims[i]] = lmax_[i];
+    lmin_[dummyDims[i]] = lmax_[dummyDims[i]];
   }
   n_ = static_cast<LevelType>(combigrid::levelSum(lmin_) + c);
   // create combi spaces
-- 
2.43.0


From 9ae6fe69dc08cb4c6872de3e6d1198026f2efd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 07/36] fix: classical scheme with lmin == lmax had a
 coefficient but no grid

---
 src/combischeme/CombiMinMaxScheme.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 8835e44..dba6d28 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -23,6 +23,7 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   if (lmintmp.empty()) {
     assert(lmin_ == lmax_);
     levels_.push_back(lmin_);
+    combiSpaces_.push_back(lmin_);
     coefficients_.push_back(1.0);
     return;
   }
-- 
2.43.0


From a7e062ea48467ccf43f3b711e3e0c5aeeaeebe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 08/36] fix: classical coefficients never finished for more
 than 255 grids

---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index dba6d28..a784b27 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -139,7 +139,7 @@ void CombiMinMaxScheme::computeCombiCoeffsAdaptive() {
 }
 
 void CombiMinMaxScheme::computeCombiCoeffsClassical() {
-  for (DimType i = 0; i < combiSpaces_.size(); ++i) {
+  for (size_t i = 0; i < combiSpaces_.size(); ++i) {
     LevelType l1 = combigrid::levelSum(combiSpaces_[i]);
     auto p = static_cast<LevelType>(n_ - l1);
     // Classical combination coefficients
-- 
2.43.0


From aae397e5e3489349f97dd3a38413ec39fcc6f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 09/36] fix: down set generator stopped early or restarted for
 unequal levels

---
 src/utils/LevelSetUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/LevelSetUtils.hpp b/src/utils/LevelSetUtils.hpp
index caaf01b..7184cb0 100644
--- a/src/utils/LevelSetUtils.hpp
+++ b/src/utils/LevelSetUtils.hpp
@@ -130,8 +130,7 @@ class HypercubeDownSetGenerator {
 
  private:
   bool isFinished() {
-    return std::all_of(currentLevel_.begin(), currentLevel_.end(),
-                       [this](const LevelType& l) { return l == levelUpTo_[0]; });
+    return currentLevel_ == levelUpTo_;
   }
 
   const LevelVector levelUpTo_;
-- 
2.43.0


From 4ab3b35bc355ef7fd46180d22e302fa45e48f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:19 +0000
Subject: [PATCH 10/36] fix: adaptive scheme was empty or missed lmax for
 uneven level differences

---
 src/combischeme/CombiMinMaxScheme.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index a784b27..9e63b0a 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -79,12 +79,8 @@ void CombiMinMaxScheme::createAdaptiveCombischeme() {
   LevelVector l(dim_);
   // // TODO: Why levelSum-1 ?
   // createLevelsRec(dim_, n_ - 1, dim_, l, lmax_);
-  auto n = static_cast<LevelType>(n_ - combigrid::levelSum(lmin_));
-  auto rlmin = lmax_;
-  for (auto& rl: rlmin) {
-    rl = static_cast<LevelType>(rl - n);
-  }
-  combigrid::createTruncatedHierarchicalLevels(lmax_, rlmin, levels_);
+  // same set of levels as the sparse grid for these lmin and lmax
+  combigrid::createTruncatedHierarchicalLevels(lmax_, lmin_, levels_);
 
   for (auto level : levels_) {
     int l1norm = std::accumulate(level.begin(), level.end(), 0);
-- 
2.43.0


From 05e3e105085bcb1f5fc75b1f0516e95c82c125ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 11/36] fix: per-process sparse grid sizes counted a level-one
 point twice off its process

---
 src/combischeme/CombiMinMaxScheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.hpp b/src/combischeme/CombiMinMaxScheme.hpp
index c1ace2c..c7b3bc5 100644
--- a/src/combischeme/CombiMinMaxScheme.hpp
+++ b/src/combischeme/CombiMinMaxScheme.hpp
@@ -302,9 +302,9 @@ inline IndexType getHighestIndexInHierarchicalSubspaceLowerThanNodalIndexOnLref(
     }
   } else if (hierarchicalSubspaceLevel == 1) {
     if (nodalIndex > 0) {
-      if (nodalIndex >= (powerOfTwo[referenceLevel])) {
+      if (nodalIndex > (powerOfTwo[referenceLevel])) {
         index = 2;
-      } else if (nodalIndex >= (powerOfTwo[referenceLevel] / 2)) {
+      } else if (nodalIndex > (powerOfTwo[referenceLevel] / 2)) {
         index = 1;
       } else {
         index = 0;
-- 
2.43.0


From a4b9feb73734c6f8df21c38d20b5c3db5272c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:07 +0000
Subject: [PATCH 12/36] fix: plot file header did not match the data offset and
 the reader's format

---
 src/fullgrid/DistributedFullGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 505197e..8bfe8fc 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1449,10 +1449,11 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
+      int dimAsInt = dim;
+      MPI_File_write(fh, &dimAsInt, 1, MPI_INT, MPI_STATUS_IGNORE);
 
       std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      MPI_File_write(fh, &res[0], static_cast<int>(res.size()), MPI_INT, MPI_STATUS_IGNORE);
     }
 
     // set file view to right offset (in bytes)
-- 
2.43.0


From e924b5ca9534ef104198659bc367d0b471a25421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:43 +0000
Subject: [PATCH 13/36] fix: evaluation at coordinate one returned zero on
 periodic grids

---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 8bfe8fc..fa3582f 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1119,7 +1119,7 @@ FG_ELEMENT DistributedFullGrid<FG_ELEMENT>::evalIndexAndAllUpperNeighbors(
       if (iterateIndexInThisDimension < 0) {
         phi_c = 0.;
         break;
-      } else if (isUpperInDim && this->hasBoundaryPoints_[d] == 1 &&
+      } else if (this->hasBoundaryPoints_[d] == 1 &&
                  //  this->getCartesianUtils().isOnLowerBoundaryInDimension(d) &&
                  iterateIndexInThisDimension == this->getGlobalSizes()[d]) {
         // if we have a wrap-around AND are on the lowest cartesian process in this dimension
-- 
2.43.0


From 74b03d7509a0d53d7474cf21c50c75028728bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:44 +0000
Subject: [PATCH 14/36] fix: plot file headers wrote the dimension as an
 unprintable character

---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 src/fullgrid/FullGrid.hpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index fa3582f..c41671c 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1432,7 +1432,7 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
       std::ofstream ofs(headername);
 
       // first line: dimension
-      ofs << "dimensionality " << getDimension() << std::endl;
+      ofs << "dimensionality " << static_cast<int>(getDimension()) << std::endl;
 
       // grid points per dimension in the order
       // x_0, x_1, ... , x_d
diff --git a/src/fullgrid/FullGrid.hpp b/src/fullgrid/FullGrid.hpp
index 1fbbad3..bd3bb5f 100644
--- a/src/fullgrid/FullGrid.hpp
+++ b/src/fullgrid/FullGrid.hpp
@@ -933,7 +933,7 @@ inline void FullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const {
   std::ofstream ofs(filename);
 
   // first line: dimension
-  ofs << getDimension() << std::endl;
+  ofs << static_cast<int>(getDimension()) << std::endl;
 
   // second line grid points per dimension in the order
   // x_0, x_1, ... , x_d
-- 
2.43.0


From 51dcc95df7a83ba21c99d6893d802e97cfda9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:32 +0000
Subject: [PATCH 15/36] fix: plot file path with a dot in its directory part
 was mangled

---
 src/manager/SparseGridWorker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..28f6619 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -772,7 +772,8 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
       dfg.writePlotFileVTK(filename.c_str());
     } else {
       std::string fn = filename;
-      auto pos = fn.find(".");
+      // only look at the last component of the path: a directory may contain "." as well
+      auto pos = fn.find(".", fn.find_last_of('/') + 1);
       if (pos != std::string::npos) {
         // if filename contains ".", insert grid number before that
         fn.insert(pos, "_" + std::to_string(g));
-- 
2.43.0


From aba222d87f1cec3e4942d7af9f83566d8186892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 16/36] fix: runfirst could leave a process group without
 tasks, so that combinations hang

---
 src/manager/ProcessManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..7c64dfa 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -38,8 +38,9 @@ bool ProcessManager<CombiDataType>::runfirst(bool doInitDSGUs) {
   }
 
   for (size_t i = 0; i < tasks_.size(); ++i) {
-    // wait for available process group
-    ProcessGroupManagerID<CombiDataType> g = wait();
+    // every group gets one task first (a group without tasks could not take part in the
+    // combination), then wait for available process group
+    ProcessGroupManagerID<CombiDataType> g = i < pgroups_.size() ? pgroups_[i] : wait();
 
     // assign instance to group
     g->runfirst(tasks_[i]);
-- 
2.43.0


From ed91eb9c2431c86c112ffa53afc84f92961cf250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 17/36] fix: updating the parameters of groups with tasks freed
 the communicator of their grids

---
 src/manager/ProcessGroupWorker.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..a05262e 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -698,6 +698,19 @@ void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& com
     // don't let MPI assign arbitrary ranks
     int reorder = false;
 
+    // the grids that exist already use the current local communicator, so keep it if the topology
+    // does not change
+    int topology = MPI_UNDEFINED;
+    int numDimsNow = 0;
+    MPI_Topo_test(theMPISystem()->getLocalComm(), &topology);
+    if (topology == MPI_CART) MPI_Cartdim_get(theMPISystem()->getLocalComm(), &numDimsNow);
+    if (numDimsNow == static_cast<int>(dims.size())) {
+      std::vector<int> dimsNow(dims.size()), periodsNow(dims.size()), coordsNow(dims.size());
+      MPI_Cart_get(theMPISystem()->getLocalComm(), numDimsNow, dimsNow.data(), periodsNow.data(),
+                   coordsNow.data());
+      if (std::equal(dims.begin(), dims.end(), dimsNow.begin()) && periods == periodsNow) return;
+    }
+
     // Create a communicator given the topology.
     MPI_Comm new_communicator;
     MPI_Cart_create(theMPISystem()->getLocalComm(), combiParameters_.getDim(), dims.data(),
-- 
2.43.0


From 57aadaabccd531f954222bf3cce1e92bbf88c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 18/36] fix: manager operations after unfinished queries or
 diagnostics returned before they were done

---
 src/manager/ProcessGroupManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..c540075 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -66,6 +66,10 @@ void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType sig
 
 template <typename CombiDataType>
 inline void ProcessGroupManager<CombiDataType>::setProcessGroupBusyAndReceive() {
+  // if an earlier operation was not waited for, its status message arrives first; it must not be
+  // taken for the end of the operation that is started now
+  waitStatus();
+
   // set status
   status_ = PROCESS_GROUP_BUSY;
 
@@ -632,6 +636,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From ea4590e357e82b87dabc647984d140858018902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:44 +0000
Subject: [PATCH 19/36] fix: reading and reducing files hung when processes
 needed different numbers of reads

---
 src/io/MPIInputOutput.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..ee5769c 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -236,6 +236,15 @@ int readValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::strin
   return file.readValuesFromFileAtPosition(valuesStart, numValues, position);
 }
 
+// the reads are collective, so all processes have to take part in the same number of them
+inline MPI_Offset getCommonNumberOfReads(MPI_Offset numValues, int numElementsToBuffer,
+                                         combigrid::CommunicatorType comm) {
+  const MPI_Offset readSize = std::max(numElementsToBuffer, 1);
+  MPI_Offset numReads = (numValues + readSize - 1) / readSize;
+  MPI_Allreduce(MPI_IN_PLACE, &numReads, 1, MPI_OFFSET, MPI_MAX, comm);
+  return numReads;
+}
+
 template <typename T, typename ReduceFunctionType>
 int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::string& fileName,
                                 combigrid::CommunicatorType comm, int numElementsToBuffer,
@@ -246,9 +255,10 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
 
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
   int readcount = 0;
+  const auto numReads = getCommonNumberOfReads(numValues, numElementsToBuffer, comm);
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  for (MPI_Offset r = 0; r < numReads; ++r) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -256,7 +266,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
+    assert(readcountIncrement == numElementsToBuffer);
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
     readcount += readcountIncrement;
@@ -292,9 +302,10 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   // read from files with MPI-IO
   int readcount = 0;
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
+  const auto numReads = getCommonNumberOfReads(numValues, numElementsToBuffer, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  for (MPI_Offset r = 0; r < numReads; ++r) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -306,7 +317,7 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      assert(readcountIncrement == numElementsToBuffer);
     }
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
-- 
2.43.0


From 573b973348c26c45e091bf1cea588893ac5b445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:44 +0000
Subject: [PATCH 20/36] fix: compressed files could not be read by processes
 without values

---
 src/io/MPICompression.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..bf44251 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -193,6 +193,8 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
   auto decompressor = FrameDecompressor(compressedString, decompressValuesStart);
   size_t decompressedSize = 0;
   int numRounds = 0;
+  // one round for the values, if there are any, and one to find that nothing is left
+  const int expectedRounds = numValues > 0 ? 2 : 1;
   do {
     decompressedSize = decompressor.decompressNextBlocks(numValues);
     numValues -= decompressedSize;
@@ -200,7 +202,7 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
     ++numRounds;
   } while (decompressedSize > 0);
   assert(numValues == 0);
-  if (numRounds != 2) {
+  if (numRounds != expectedRounds) {
     throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
   }
 #else
-- 
2.43.0


From 1d1d1221b90fc79e3a5a068f013cc316ea78c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:19 +0000
Subject: [PATCH 21/36] fix: removing exchange files missed directories and
 removed other files

---
 src/manager/SparseGridWorker.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 28f6619..d228d5f 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1071,13 +1071,8 @@ void SparseGridWorker<CombiDataType>::removeReadingFiles(
       // remove sparse grid file(s)
       if (!keepSparseGridFiles) {
         std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0));
-        for (const auto& entry : std::filesystem::directory_iterator(".")) {
-          if (entry.path().string().find(filenamePrefixesToRead[i] + "_" + std::to_string(0) +
-                                         ".part" + std::to_string(filePart)) != std::string::npos) {
-            assert(entry.is_regular_file());
-            std::filesystem::remove(entry.path());
-          }
-        }
+        std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0) + ".part" +
+                                std::to_string(filePart));
       }
     }
   }
-- 
2.43.0


From 8a5bc5f49e933333c225a97dbd104380a18a6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:33 +0000
Subject: [PATCH 22/36] fix: reversing the byte order read one byte beyond the
 value

---
 src/third_level/NetworkUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..c6261d2 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -163,7 +163,7 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
-- 
2.43.0


From d5aa177a2f06ffdbf22fde7bbfb778c1cdba7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:33 +0000
Subject: [PATCH 23/36] fix: receiving an element in more than two pieces
 corrupted the data

---
 src/third_level/NetworkUtils.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index c6261d2..cc81aaf 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -2,6 +2,7 @@
 #define NETWORK_UTILS_H
 
 #include <stdio.h>
+#include <algorithm>
 #include <string>
 #include <sys/types.h>
 #include <sys/socket.h>
@@ -223,7 +224,9 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
+    // an element may be split across more than two receives
     tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    tail_k = std::min(tail_k, recvd);
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -258,7 +261,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
@@ -334,8 +337,10 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
+    // an element may be split across more than two receives
     tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
-    head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
+    tail_k = std::min(tail_k, recvd);
+    head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
     for (long i = 0; i < tail_k; ++i)
@@ -377,7 +382,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
-- 
2.43.0


From c62dc8f686755bbb98cf96970950753c79784231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:33 +0000
Subject: [PATCH 24/36] fix: receiving to a file consumed the following message

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..a870653 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -121,7 +121,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
-- 
2.43.0


From 441538030a8875d13081809c44f901492441b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:03 +0000
Subject: [PATCH 25/36] fix: sockets closed their file descriptor twice

---
 src/third_level/NetworkUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index a870653..f0b29cf 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -12,6 +12,7 @@ ClientSocket::ClientSocket() : Socket() {
 
 ClientSocket::~ClientSocket() {
   close(sockfd_);
+  sockfd_ = -1;  // not to be closed again by ~Socket()
 }
 
 bool ClientSocket::init() {
@@ -284,6 +285,7 @@ ServerSocket::ServerSocket(const unsigned short port) : Socket(), port_(port) {
 
 ServerSocket::~ServerSocket() {
   close(sockfd_);
+  sockfd_ = -1;  // not to be closed again by ~Socket()
   sleep(5);
 }
 
@@ -359,7 +361,7 @@ Socket::Socket() : sockfd_(-1), initialized_(false) {
 }
 
 Socket::~Socket(){
-  close(sockfd_);
+  if (sockfd_ >= 0) close(sockfd_);
 }
 
 int Socket::getFileDescriptor() const {
-- 
2.43.0


From 4c9d95ca80428b222b6a252db9b92aa7e1280ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:20 +0000
Subject: [PATCH 26/36] fix: broker crashed writing statistics when nothing was
 combined

---
 third_level_manager/thirdLevelManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..d1cecd6 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,8 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  size_t numBytesTransferredPerCombination =
+      numCombinations > 0 ? totalBytesTransferredInCombination / numCombinations : 0;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From 87c9da24b97ed8d3af70488582bfcf6a78aa0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 27/36] fix: extra sparse grid outside the output group used an
 invalid communicator

---
 src/manager/SparseGridWorker.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index d228d5f..ed1740f 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1090,14 +1090,18 @@ inline void SparseGridWorker<CombiDataType>::setExtraSparseGrid(bool initializeS
         "here");
   }
 
+  // outside of the output group (exchange through the manager), the extra grid is not written
+  const CommunicatorType extraComm = theMPISystem()->getOutputGroupComm() == MPI_COMM_NULL
+                                         ? theMPISystem()->getLocalComm()
+                                         : theMPISystem()->getOutputGroupComm();
+
   // create new vector for extra sparse grids (that will be only on this process group)
   this->getExtraUniDSGVector().resize(this->getNumberOfGrids());
   for (auto& extraUniDSG : this->getExtraUniDSGVector()) {
     extraUniDSG = std::unique_ptr<DistributedSparseGridUniform<CombiDataType>>(
         new DistributedSparseGridUniform<CombiDataType>(
             this->getCombinedUniDSGVector()[0]->getDim(),
-            this->getCombinedUniDSGVector()[0]->getAllLevelVectors(),
-            theMPISystem()->getOutputGroupComm()));
+            this->getCombinedUniDSGVector()[0]->getAllLevelVectors(), extraComm));
     // create Kahan buffer now (at zero size), because summation is not needed on this sparse grid
     extraUniDSG->createKahanBuffer();
     if (initializeSizes) {
-- 
2.43.0


From cf955e9a1a6d7e64f855c46d7fe7bb7363976aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 28/36] fix: lost grids were neither recomputed nor
 redistributed if all of them were on coarser diagonals

---
 src/manager/ProcessManager.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..6a0001e 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -785,6 +785,16 @@ inline void ProcessManager<CombiDataType>::recomputeOptimumCoefficients(
     std::set_difference(faultsID.begin(), faultsID.end(), recomputeFaultsID.begin(),
                         recomputeFaultsID.end(),
                         std::inserter(redistributeFaultsID, redistributeFaultsID.begin()));
+  } else {
+    // the coefficients stay: only the failed grids that are in use need to be computed again
+    std::sort(faultsID.begin(), faultsID.end());
+    for (auto id : faultsID) {
+      if (given_dict[IDsToLevels[id]] != 0) {
+        recomputeFaultsID.push_back(id);
+      } else {
+        redistributeFaultsID.push_back(id);
+      }
+    }
   }
 }
 
-- 
2.43.0


From 4a7bc8621fe3b6a84b02cc6d9903b167eb95f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 29/36] fix: weights of the fault tolerance optimisation
 vanished below the solver tolerance

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index 077ed85..0d50137 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -158,7 +158,8 @@ void LP_OPT_INTERP::init_opti_prob(const std::string& prob_name) {
   }
 
   for (int i = 0; i < size_downset; ++i) {
-    neg_norm = -l1_norm(downset_indices[i]);
+    // relative to the finest diagonal: 4^-|l| alone gets smaller than the tolerances of the solver
+    neg_norm = static_cast<double>(l_max) - l1_norm(downset_indices[i]);
     coeff = pow(4.0, neg_norm);
 
     aux_var = set_aux_var_name("w", i + 1);
-- 
2.43.0


From 6087e6b8725c05f447cc6fd59e19f84f9bff4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 30/36] fix: average of the last durations overflowed, and was
 undefined without durations

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..cdf146c 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -28,8 +28,11 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
     const LevelVector& lvlVec) {
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
+  if (durations.empty()) {
+    return std::chrono::microseconds{0};
+  }
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
-- 
2.43.0


From 732b50f03a7295cec71933e196329e049ac5a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:46 +0000
Subject: [PATCH 31/36] fix: rebalancing took the number of tasks for the
 number of groups, divided by zero without durations and forgot moves

---
 .../RebalancingTaskRescheduler.cpp            | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 6f9f3c8..cc23144 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <numeric>
 #include <map>
+#include <set>
 
 namespace combigrid {
 
@@ -24,7 +25,14 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
   // variable containing the result
   std::vector<std::pair<LevelVector, int>> moveTasks{};
 
-  const auto numberOfProcessGroups = levelVectorToProcessGroupIndex.size();
+  std::set<int> processGroups;
+  for (const auto& t : levelVectorToProcessGroupIndex) {
+    processGroups.insert(t.second);
+  }
+  const auto numberOfProcessGroups = processGroups.size();
+  if (numberOfProcessGroups == 0) {
+    return moveTasks;
+  }
 
   // we need to mutate this map for multiple iterations
   auto levelVectorToProcessGroupIndexMutCopy = levelVectorToProcessGroupIndex;
@@ -40,6 +48,11 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
         }
       ) / numberOfProcessGroups;
 
+  if (averageProcessGroupDuration == 0) {
+    // nothing measured yet
+    return moveTasks;
+  }
+
   while (iteration < this->max_iterations_) {
 
     std::map<int, unsigned long> processGroupIndexToDuration{};
@@ -66,7 +79,9 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       slowestGroup = *minmaxGroup.second;
     }
 
-    if (slowestGroup.second / averageProcessGroupDuration < this->min_inbalance_) {
+    if (static_cast<double>(slowestGroup.second) /
+            static_cast<double>(averageProcessGroupDuration) <
+        this->min_inbalance_) {
       return moveTasks;
     }
 
@@ -97,6 +112,7 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
 
     if (fastestGroup.second + moveTask.second < slowestGroup.second) {
       // move task from slowest to fastest group
+      levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
 
       bool alreadyMoved = false;
       // check if previously moved: if moved, change group id
@@ -108,7 +124,6 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
         }
       } 
       if (!alreadyMoved) {
-        levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
         moveTasks.push_back({moveTask.first, fastestGroup.first});
       }
 
-- 
2.43.0


From 2cc0f866422c1b09e006756d03c16aaa8bcdbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 32/36] fix: received combination parameters had no mapping
 from levels to tasks and coefficients

---
 src/manager/CombiParameters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/CombiParameters.hpp b/src/manager/CombiParameters.hpp
index cd2c5e6..45e441c 100644
--- a/src/manager/CombiParameters.hpp
+++ b/src/manager/CombiParameters.hpp
@@ -552,6 +552,8 @@ void CombiParameters::serialize(Archive& ar, const unsigned int version) {
   ar & boundary_;
   ar & levels_;
   ar & coeffs_;
+  ar & levelsToIDs_;
+  ar & combiDictionary_;
   ar & hierarchizationDims_;
   ar & hierarchicalBases_;
   ar & procs_;
-- 
2.43.0


From 7bb063df6e201cc7c9c072f1583ecaf67adad30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:07 +0000
Subject: [PATCH 33/36] fix: only the first of several grids per task was
 hierarchized and dehierarchized

---
 src/manager/ProcessGroupWorker.cpp | 12 ++++++++----
 src/manager/TaskWorker.hpp         | 13 ++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index a05262e..b3b3ada 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -477,7 +477,8 @@ void ProcessGroupWorker<CombiDataType>::combineSystemWide() {
   Stats::startEvent("hierarchize");
   this->getTaskWorker().hierarchizeFullGrids(
       combiParameters_.getBoundary(), combiParameters_.getHierarchizationDims(),
-      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin());
+      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin(),
+      combiParameters_.getNumGrids());
   Stats::stopEvent("hierarchize");
 
   Stats::startEvent("reduce");
@@ -493,7 +494,8 @@ void ProcessGroupWorker<CombiDataType>::combineSystemWideAndWrite(
   Stats::startEvent("hierarchize");
   this->getTaskWorker().hierarchizeFullGrids(
       combiParameters_.getBoundary(), combiParameters_.getHierarchizationDims(),
-      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin());
+      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin(),
+      combiParameters_.getNumGrids());
   Stats::stopEvent("hierarchize");
 
   if (combiParameters_.getCombinationVariant() ==
@@ -529,7 +531,8 @@ void ProcessGroupWorker<CombiDataType>::dehierarchizeAllTasks() {
   Stats::startEvent("dehierarchize");
   this->getTaskWorker().dehierarchizeFullGrids(
       combiParameters_.getBoundary(), combiParameters_.getHierarchizationDims(),
-      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin());
+      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin(),
+      combiParameters_.getNumGrids());
   Stats::stopEvent("dehierarchize");
   currentCombi_++;
 }
@@ -539,7 +542,8 @@ void ProcessGroupWorker<CombiDataType>::combineAtOnce(bool collectMinMaxCoeffici
   Stats::startEvent("hierarchize");
   this->getTaskWorker().hierarchizeFullGrids(
       combiParameters_.getBoundary(), combiParameters_.getHierarchizationDims(),
-      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin());
+      combiParameters_.getHierarchicalBases(), combiParameters_.getLMin(),
+      combiParameters_.getNumGrids());
   Stats::stopEvent("hierarchize");
 
   if (combiParameters_.getCombinationVariant() ==
diff --git a/src/manager/TaskWorker.hpp b/src/manager/TaskWorker.hpp
index f250f25..064df44 100644
--- a/src/manager/TaskWorker.hpp
+++ b/src/manager/TaskWorker.hpp
@@ -29,12 +29,12 @@ class TaskWorker {
   inline void dehierarchizeFullGrids(const std::vector<BoundaryType>& boundary,
                                      const std::vector<bool>& hierarchizationDims,
                                      const std::vector<BasisFunctionBasis*>& hierarchicalBases,
-                                     const LevelVector& lmin) {
+                                     const LevelVector& lmin, size_t numGrids) {
     bool anyNotBoundary =
         std::any_of(boundary.cbegin(), boundary.cend(), [](BoundaryType b) { return b == 0; });
     for (auto& t : this->getTasks()) {
-      for (IndexType g = 0; g < this->numGridsPerTask_; g++) {
-        auto& dfg = t->getDistributedFullGrid(static_cast<int>(g));
+      for (size_t g = 0; g < numGrids; g++) {
+        auto& dfg = t->getDistributedFullGrid(g);
         if (anyNotBoundary) {
           std::remove_reference_t<decltype(lmin)> zeroLMin(lmin.size(), 0);
           DistributedHierarchization::dehierarchizeDFG(dfg, hierarchizationDims, hierarchicalBases,
@@ -86,12 +86,12 @@ class TaskWorker {
   inline void hierarchizeFullGrids(const std::vector<BoundaryType>& boundary,
                                    const std::vector<bool>& hierarchizationDims,
                                    const std::vector<BasisFunctionBasis*>& hierarchicalBases,
-                                   const LevelVector& lmin) {
+                                   const LevelVector& lmin, size_t numGrids) {
     bool anyNotBoundary =
         std::any_of(boundary.cbegin(), boundary.cend(), [](BoundaryType b) { return b == 0; });
     for (const auto& t : this->getTasks()) {
-      for (IndexType g = 0; g < this->numGridsPerTask_; g++) {
-        auto& dfg = t->getDistributedFullGrid(static_cast<int>(g));
+      for (size_t g = 0; g < numGrids; g++) {
+        auto& dfg = t->getDistributedFullGrid(g);
         if (anyNotBoundary) {
           std::remove_reference_t<decltype(lmin)> zeroLMin(lmin.size(), 0);
           DistributedHierarchization::hierarchize(dfg, hierarchizationDims, hierarchicalBases,
@@ -142,6 +142,5 @@ class TaskWorker {
 
  private:
   std::vector<std::unique_ptr<Task<CombiDataType>>> tasks_{};  /// task storage
-  int numGridsPerTask_ = 1;
 };
 } /* namespace combigrid */
-- 
2.43.0


From cf149e8f30cca057d29033a3139e74c282ebb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:39 +0000
Subject: [PATCH 34/36] fix: plots of the second and further grids contained
 values of the grid before

---
 src/manager/SparseGridWorker.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index ed1740f..f888d38 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -766,6 +766,8 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
                                                levelToEvaluate, theMPISystem()->getLocalComm(),
                                                boundary, parallelization, false, decomposition);
   for (size_t g = 0; g < this->getNumberOfGrids(); ++g) {  // loop over all grids and plot them
+    // only the subspaces of the sparse grid are filled below
+    dfg.setZero();
     this->fillDFGFromDSGU(dfg, g, boundary, hierarchizationDims, hierarchicalBases, lmin);
     // save dfg to file with MPI-IO
     if (endsWith(filename, ".vtk")) {
-- 
2.43.0


From 072919dce7718de1715a7e9d2711f3949099bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:57 +0000
Subject: [PATCH 35/36] fix: the manager's report of minimum and maximum
 coefficients was never written with several groups

---
 src/manager/ProcessManager.cpp | 4 +++-
 src/manager/ProcessManager.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index 7c64dfa..d950e10 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -577,7 +577,9 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
 
 template <typename CombiDataType>
 void ProcessManager<CombiDataType>::writeSparseGridMinMaxCoefficients(const std::string& filename) {
-  pgroups_.back()->writeSparseGridMinMaxCoefficients(filename);
+  // the coefficients are reduced across all process groups
+  for (auto& pg : pgroups_) pg->writeSparseGridMinMaxCoefficients(filename);
+  waitAllFinished();
 }
 
 template <typename CombiDataType>
diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index 6a0001e..6510829 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -319,7 +319,7 @@ class ProcessManager {
                                      const std::string& filenamePrefix) const;
 
   /**
-   * @brief signal the last group to write minimum and maximum subspace coefficients to a file
+   * @brief signal all groups to write minimum and maximum subspace coefficients to a file
    *
    * @param filename the filename to write to
    */
-- 
2.43.0


From 1ff6bfefce8be1f85a6666b193bf138172a62497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:07 +0000
Subject: [PATCH 36/36] fix: the subspace size files did not fit schemes with
 an unrefined dimension

---
 tools/subspace_writer/subspace_writer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/subspace_writer/subspace_writer.cpp b/tools/subspace_writer/subspace_writer.cpp
index 41dcbd8..149d4fd 100644
--- a/tools/subspace_writer/subspace_writer.cpp
+++ b/tools/subspace_writer/subspace_writer.cpp
@@ -110,7 +110,9 @@ int main(int argc, char** argv) {
   MIDDLE_PROCESS_EXCLUSIVE_SECTION std::cout << "generated parameters" << std::endl;
 
   LevelVector reducedLmax = lmax;
-  for (DimType d = 0; d < dim; ++d) reducedLmax[d] -= reduceCombinationDimsLmax[d];
+  for (DimType d = 0; d < dim; ++d)
+    reducedLmax[d] =
+        std::max(lmin[d], static_cast<LevelType>(reducedLmax[d] - reduceCombinationDimsLmax[d]));
 
   // make local communicator cartesian
   std::vector<int> periods(dim);
-- 
2.43.0

