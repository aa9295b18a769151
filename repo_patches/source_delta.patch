From 7a895bc0e17859fdc78fdf61bb770ad762f26f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 01/13] fix: clipper returned triangles that lie completely
 outside of the clipping box

When a triangle was located entirely on the outer side of one of the planes
(max <= lower bound or min >= upper bound), both clipping passes were skipped
and the triangle was returned unclipped.
---
 queso/embedding/clipper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queso/embedding/clipper.cpp b/queso/embedding/clipper.cpp
index 7d1db9d..02acef2 100644
--- a/queso/embedding/clipper.cpp
+++ b/queso/embedding/clipper.cpp
@@ -69,6 +69,11 @@ Unique<PolygonType> Clipper::ClipTriangle(
     /// Loop over all three dimensions, and clip each plane (positive and negative direction.)
     for(IndexType dimension = 0; dimension < 3; ++dimension)
     {
+        // Return nullptr, if the entire triangle is located on the outer side of one of the planes.
+        if( max_tri[dimension] <= rLowerBound[dimension] || min_tri[dimension] >= rUpperBound[dimension] ) {
+            return nullptr;
+        }
+
         if(max_tri[dimension] > rLowerBound[dimension] )
         {
             std::swap(p_prev_poly, p_current_poly);
-- 
2.43.0


From 5a6c6bbd8495e4a464ee563eb5e55b1f67c2cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 02/13] fix: requests for unavailable 1D integration rules read
 out of bounds

GetGauss() with a degree beyond the tabulated rules (or below the reduction of the
reduced rules) and GetGGQ() with p<2, p>4 or no knot span indexed out of the tables.
---
 .../integration_points_factory_1d.cpp              | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp b/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
index 6774502..8ef2f13 100644
--- a/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
+++ b/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
@@ -27,6 +27,9 @@ typedef IntegrationPointFactory1D::Ip1DVectorPtrType Ip1DVectorPtrType;
 
 // Public member functions
 Ip1DVectorPtrType IntegrationPointFactory1D::GetGGQ(SizeType PolynomialDegree, SizeType NumberKnotSpans, IntegrationMethodType Method ){
+    QuESo_ERROR_IF( PolynomialDegree < 2 || PolynomialDegree > 4 || NumberKnotSpans < 1 )
+        << "Generalized Gauss Quadrature (GGQ) rules are only available for 2 <= p <= 4 and at least one knot span.\n";
+
     const double a = 0.0;
     const double b = 1.0;
 
@@ -123,14 +126,19 @@ Ip1DVectorPtrType IntegrationPointFactory1D::GetGGQ(SizeType PolynomialDegree, S
 }
 
 const Ip1DVectorType& IntegrationPointFactory1D::GetGauss( SizeType PolynomialDegree, IntegrationMethodType Method ){
+    const auto get_points = [PolynomialDegree](SizeType Reduction) -> const Ip1DVectorType& {
+        QuESo_ERROR_IF( PolynomialDegree < Reduction || PolynomialDegree - Reduction >= mGaussLegendrePoints.size() )
+            << "No Gauss rule available for polynomial degree: " << PolynomialDegree << ".\n";
+        return mGaussLegendrePoints[PolynomialDegree - Reduction];
+    };
     switch(Method)
     {
         case IntegrationMethod::gauss:
-            return mGaussLegendrePoints[PolynomialDegree];
+            return get_points(0);
         case IntegrationMethod::gauss_reduced_1:
-            return mGaussLegendrePoints[PolynomialDegree-1];
+            return get_points(1);
         case IntegrationMethod::gauss_reduced_2:
-            return mGaussLegendrePoints[PolynomialDegree-2];
+            return get_points(2);
         default:
             QuESo_ERROR << "Method not available\n";
     }
-- 
2.43.0


From 378a04496f9092f8bef107040db4f58dd5ef2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 03/13] fix: point elimination erased past the end with fewer
 points than functions

When the octree provides fewer points than moment-fitting functions,
begin()+number_of_functions lies behind end().
---
 queso/quadrature/trimmed_element.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..1ce6ed0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,12 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 8939e73589a9f475d5acd4a14e39805566c1e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 04/13] fix: global integration points of an element view
 referred to the view

The returned range captured the (often temporary) view itself and read its
cached determinant after the view was destroyed.
---
 queso/containers/element_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/containers/element_view.hpp b/queso/containers/element_view.hpp
index 1a05559..f47b626 100644
--- a/queso/containers/element_view.hpp
+++ b/queso/containers/element_view.hpp
@@ -98,9 +98,9 @@ public:
                 "Global integration-point access requires IntegrationPointType(PointType, double)."
             );
             const auto& r_core = mCore.get();
-            return r_core.integration_points | std::views::transform([this, &r_core](const auto& rPoint) {
+            return r_core.integration_points | std::views::transform([&r_core, det_j = mDetJ](const auto& rPoint) {
                        return IntegrationPointType(
-                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * mDetJ
+                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * det_j
                        );
                    });
         }
-- 
2.43.0


From 630342689618fca930a2e17442357e606c8df5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 05/13] fix: query of an empty AABB tree read out of bounds

The node was accessed before it was checked against NULL_NODE.
---
 queso/embedding/aabb_tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/aabb_tree.cpp b/queso/embedding/aabb_tree.cpp
index 52dcb03..c5eea17 100644
--- a/queso/embedding/aabb_tree.cpp
+++ b/queso/embedding/aabb_tree.cpp
@@ -45,12 +45,12 @@ std::vector<IndexType> AABB_tree::Query(const AABB_primitive_base& rAABB_primiti
         IndexType node = stack.back();
         stack.pop_back();
 
+        if (node == NULL_NODE) continue;
+
         /// TODO: remove this copy (pass lower_bound and upper_bound to intersect())
         const auto& r_aabb_base = BaseTreeType::Nodes()[node].aabb_base;
         const AABB_primitive aabb{r_aabb_base.lowerBound, r_aabb_base.upperBound};
 
-        if (node == NULL_NODE) continue;
-
         // Test for overlap between the AABBs.
         if (rAABB_primitive.intersect(aabb) )
         {
-- 
2.43.0


From 5490381e43edf71af41c22275482c450aa90e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 06/13] fix: multi-element quadrature merged elements across
 the end of the grid

The id next to the last element of a row wraps to the start of the next row,
which was taken for a neighbour: boxes with wrong bounds, wrong points.
---
 queso/quadrature/multiple_elements.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..0d4b82b 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,6 +306,8 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
+        // At the end of the grid, the next id wraps around and does not belong to a neighbour.
+        if( rElements.IsEnd(CurrentId, Dir) ) { return nullptr; }
         return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
     }
 
-- 
2.43.0


From b8ec10bbf89774e83cdc5e840b8e06878beacdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 07/13] fix: ray test of closed meshes used uninitialized
 values for parallel triangles

Ray_AABB_primitive::intersect() does not set t, u, v when the triangle is
parallel to the ray, hence this case must be handled first.
---
 queso/embedding/geometry_query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/geometry_query.cpp b/queso/embedding/geometry_query.cpp
index bddc9a0..28b2991 100644
--- a/queso/embedding/geometry_query.cpp
+++ b/queso/embedding/geometry_query.cpp
@@ -119,6 +119,10 @@ namespace queso {
             // Test for actual intersection, if area is area is not zero.
             if( TriangleUtilities::Area(tri) > 100.0*ZEROTOL
                     && rRay.intersect(tri.P1, tri.P2, tri.P3, t, u, v, back_facing, parallel) ) {
+                if( parallel ){ // Triangle is parallel to ray. Note that t, u, v are not set.
+                    final_result = std::make_pair(false, false);
+                    return TriangleMeshView::VisitToken::stop_loop;
+                }
                 intersection_count++;
                 const double sum_u_v = u+v;
                 if( t < ZEROTOL ){ // Origin lies on boundary
@@ -130,10 +134,6 @@ namespace queso {
                     final_result = std::make_pair(false, false);
                     return TriangleMeshView::VisitToken::stop_loop;
                 }
-                if( parallel ){ // Triangle is parallel to ray.
-                    final_result = std::make_pair(false, false);
-                    return TriangleMeshView::VisitToken::stop_loop;
-                }
             }
             return TriangleMeshView::VisitToken::continue_loop;
         });
-- 
2.43.0


From 2973ce6e06df1567fca48ec0e6a7b44884abfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 08/13] fix: flood fill evaluated cells of other rows at the
 end of the grid

---
 queso/embedding/flood_fill.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..9eb9929 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -260,7 +260,8 @@ void FloodFill::MergeGroups(GroupSetVectorType& rGroups, GroupSetVectorType& rMe
                 const auto [lower_offset, upper_offset] = GetOffsets(walk_directions[0]);
                 const auto [next_index, index_info] = mGridIndexer.GetNextIndex(index, walk_directions[0]);
                 auto box_next = mGridIndexer.GetBoundingBoxXYZFromIndex(next_index);
-                if( !mpBrepOperator->IsTrimmed((box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ) {
+                if( index_info == GridIndexer::IndexInfo::middle &&
+                    !mpBrepOperator->IsTrimmed((box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ) {
                     if( static_cast<int>(indices[PartitionDir]) > std::get<1>( group_bounding_box ) ){
                         std::get<1>( group_bounding_box ) = static_cast<int>(indices[PartitionDir]);
                         boundary_indices[1].clear();
@@ -273,7 +274,8 @@ void FloodFill::MergeGroups(GroupSetVectorType& rGroups, GroupSetVectorType& rMe
                 const auto [lower_offset, upper_offset] = GetOffsets(walk_directions[1]);
                 const auto [next_index, index_info] = mGridIndexer.GetNextIndex(index, walk_directions[1]);
                 auto box_next = mGridIndexer.GetBoundingBoxXYZFromIndex(next_index);
-                if( !mpBrepOperator->IsTrimmed( (box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ){
+                if( index_info == GridIndexer::IndexInfo::middle &&
+                    !mpBrepOperator->IsTrimmed( (box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ){
                     if( static_cast<int>(indices[PartitionDir]) < std::get<0>( group_bounding_box ) ){
                         std::get<0>( group_bounding_box ) = static_cast<int>(indices[PartitionDir]);
                         boundary_indices[0].clear();
@@ -288,7 +290,8 @@ void FloodFill::MergeGroups(GroupSetVectorType& rGroups, GroupSetVectorType& rMe
                 const auto [lower_offset, upper_offset] = GetOffsets(walk_directions[0]);
                 const auto [next_index, index_info] = mGridIndexer.GetNextIndex(index, walk_directions[0]);
                 auto box_next = mGridIndexer.GetBoundingBoxXYZFromIndex(next_index);
-                if( mpBrepOperator->IsTrimmed( (box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ){
+                if( index_info == GridIndexer::IndexInfo::middle &&
+                    mpBrepOperator->IsTrimmed( (box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ){
                     std::get<2>(group_set) += GetIsInsideCount(index, next_index, lower_offset, upper_offset);
                 }
             }
@@ -297,7 +300,8 @@ void FloodFill::MergeGroups(GroupSetVectorType& rGroups, GroupSetVectorType& rMe
                 const auto [lower_offset, upper_offset] = GetOffsets(walk_directions[1]);
                 const auto [next_index, index_info] = mGridIndexer.GetNextIndex(index, walk_directions[1]);
                 auto box_next = mGridIndexer.GetBoundingBoxXYZFromIndex(next_index);
-                if( mpBrepOperator->IsTrimmed( (box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ){
+                if( index_info == GridIndexer::IndexInfo::middle &&
+                    mpBrepOperator->IsTrimmed( (box_next.lower + lower_offset), (box_next.upper + upper_offset) ) ){
                     std::get<2>(group_set) += GetIsInsideCount(index, next_index, lower_offset, upper_offset);
                 }
             }
-- 
2.43.0


From 01f00ecdee38e8af18a424c5dc6808f0e87aea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 09/13] fix: flood fill classified groups without votes as
 outside

---
 queso/embedding/flood_fill.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 9eb9929..8f6d852 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -108,7 +108,13 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     // Mark states
     for( auto& r_group : rGroupsOutput ){
         int inside_count = std::get<2>(r_group);
-        auto state = (inside_count > 0) ? IntersectionState::inside : IntersectionState::outside;
+        bool is_inside = (inside_count > 0);
+        if( inside_count == 0 ) {
+            // There is no (decisive) vote, e.g., because the grid does not contain any trimmed element.
+            const auto box = mGridIndexer.GetBoundingBoxXYZFromIndex(*std::get<1>(r_group).begin());
+            is_inside = mpBrepOperator->IsInside(0.5 * (box.lower + box.upper));
+        }
+        auto state = is_inside ? IntersectionState::inside : IntersectionState::outside;
         for( auto group_it = std::get<1>(r_group).begin(); group_it !=  std::get<1>(r_group).end(); ++group_it){
             states[*group_it] = state;
         }
-- 
2.43.0


From 2d2b94c054624d4f26610a59d2c47c164e93b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 10/13] fix: duplicate element id terminated the program
 instead of throwing

---
 queso/containers/background_grid.hpp | 40 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..4edd9a0 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,27 +327,31 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        bool already_exists = false; // Must not throw within the critical section.
 #pragma omp critical
         {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
-            const auto location = [&]() {
-                if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
-                    const IndexType index = mTrimmedElements.size();
-                    mTrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ true, index };
-                } else {
-                    static_assert(
-                        TBuilderType::Builds == ElementFilter::untrimmed,
-                        "The builder must either support trimmed or untrimmed element construction."
-                    );
-
-                    const IndexType index = mUntrimmedElements.size();
-                    mUntrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ false, index };
-                }
-            }();
-            mElementIdMap.emplace(Id, location);
+            already_exists = mElementIdMap.contains(Id);
+            if (!already_exists) {
+                const auto location = [&]() {
+                    if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
+                        const IndexType index = mTrimmedElements.size();
+                        mTrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ true, index };
+                    } else {
+                        static_assert(
+                            TBuilderType::Builds == ElementFilter::untrimmed,
+                            "The builder must either support trimmed or untrimmed element construction."
+                        );
+
+                        const IndexType index = mUntrimmedElements.size();
+                        mUntrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ false, index };
+                    }
+                }();
+                mElementIdMap.emplace(Id, location);
+            }
         }
+        QuESo_ERROR_IF(already_exists) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From 51ba1c4a5bd9bd23a16e7571a36ab5befd748f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 11/13] fix: surfaces on cell faces at large coordinates were
 assigned to no condition segment

The absolute offset of the clipping planes vanished in the round-off of coordinates above ~1e4,
so triangles on the face between two cells were dropped by both of them.
---
 queso/embedding/brep_operator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 552d9a6..d3a4d62 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -242,9 +242,13 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 
 
 ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
-    const PointType offset{30*ZEROTOL, 30*ZEROTOL, 30*ZEROTOL};
-    const auto lower_bound = rLowerBound + offset;
-    const auto upper_bound = rUpperBound + offset;
+    // Offset scales with the magnitude of the coordinates. Otherwise, it vanishes in the round-off of large coordinates.
+    const auto add_offset = [](PointView rBound) -> PointType {
+        const auto shift = [](double Value) { return Value + 30*ZEROTOL*std::max(1.0, std::abs(Value)); };
+        return PointType{shift(rBound[0]), shift(rBound[1]), shift(rBound[2])};
+    };
+    const auto lower_bound = add_offset(rLowerBound);
+    const auto upper_bound = add_offset(rUpperBound);
     double snap_tolerance = 1.0*ZEROTOL;
 
     const auto intersected_triangle_ids = mGeometryQuery.GetIntersectedTriangleIds(lower_bound, upper_bound, snap_tolerance);
-- 
2.43.0


From 9941ea66bc42dacadd5310d82b5d70a109c07e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 12/13] fix: surfaces on the lower boundary of the background
 grid were assigned to no condition segment

BRepOperator::ClipTriangleMeshUnique() leaves triangles on the lower faces of a cell to the adjacent
cell, which does not exist at the lower boundary of the grid: the whole surface was dropped.
---
 queso/embedded_model.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..343f3ff 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -12,6 +12,8 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <algorithm>
+#include <cmath>
 #include <omp.h>
 
 //// Project includes
@@ -239,7 +241,14 @@ void EmbeddedModel::ComputeCondition(
     for (int for_index = 0; for_index < static_cast<int>(mGridIndexer.NumberOfElements()); ++for_index) {
         const auto index = static_cast<IndexType>(for_index);
         // Clip embedded geoemetry with the current element (bounding box).
-        const auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
+        auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
+        // ClipTriangleMeshUnique() leaves triangles on the lower faces to the adjacent (lower) cell.
+        // There is no such cell at the lower boundary of the background grid.
+        const auto matrix_indices = mGridIndexer.GetMatrixIndicesFromVectorIndex(index);
+        for (IndexType dim = 0; dim < 3; ++dim) {
+            double& r_lower = bounding_box_xyz.lower[dim];
+            r_lower -= (matrix_indices[dim] == 0) ? 100.0 * ZEROTOL * std::max(1.0, std::abs(r_lower)) : 0.0;
+        }
         auto new_mesh = brep_operator.ClipTriangleMeshUnique(bounding_box_xyz.lower, bounding_box_xyz.upper);
 
         if (new_mesh.NumOfTriangles() > 0) {
-- 
2.43.0


From 03e5be88d95adcaff4e5ff6413dcc1702fdf971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:11 +0000
Subject: [PATCH 13/13] fix: STL reader accepted malformed vertex lines

Lines with a missing or non-numeric coordinate were read with (partly uninitialized) default values.
---
 queso/io/io_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..f1eaa73 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -250,6 +250,7 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 iss >> word; // "vertex"
                 float xf, yf, zf;
                 iss >> xf >> yf >> zf;
+                QuESo_ERROR_IF(!iss || word != "vertex") << "Expected 'vertex x y z' but got: " << line << '.' << std::endl;
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
-- 
2.43.0

