From 160449d4ddd6e288fc2f4bb0834dc6b09c49c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 01/43] fix: connect the junctions of quads in an order that
 does not depend on memory addresses

The set of unprocessed quads was keyed by pointer, so the order in which toolpath
segments were joined, and with it the g-code, changed with the addresses the edges
happened to get, which depend on the interleaving of the worker threads.
---
 src/arachne/SkeletalTrapezoidation.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arachne/SkeletalTrapezoidation.cpp b/src/arachne/SkeletalTrapezoidation.cpp
index e734daf..6835738 100644
--- a/src/arachne/SkeletalTrapezoidation.cpp
+++ b/src/arachne/SkeletalTrapezoidation.cpp
@@ -2064,19 +2064,26 @@ void SkeletalTrapezoidation::addToolpathSegment(const ExtrusionJunction& from, c
 void SkeletalTrapezoidation::connectJunctions(ptr_vector_t<LineJunctions>& edge_junctions)
 {
     std::unordered_set<edge_t*> unprocessed_quad_starts(graph_.edges_.size() * 5 / 2);
+    std::vector<edge_t*> ordered_quad_starts; // The order of the set depends on the addresses of the edges, which differ from run to run.
     for (edge_t& edge : graph_.edges_)
     {
         if (! edge.prev_)
         {
             unprocessed_quad_starts.insert(&edge);
+            ordered_quad_starts.push_back(&edge);
         }
     }
 
     std::unordered_set<edge_t*> passed_odd_edges;
 
-    while (! unprocessed_quad_starts.empty())
+    while (! ordered_quad_starts.empty())
     {
-        edge_t* poly_domain_start = *unprocessed_quad_starts.begin();
+        edge_t* poly_domain_start = ordered_quad_starts.back();
+        ordered_quad_starts.pop_back();
+        if (! unprocessed_quad_starts.contains(poly_domain_start))
+        {
+            continue;
+        }
         edge_t* quad_start = poly_domain_start;
         bool new_domain_start = true;
         do
-- 
2.43.0


From afa838dd0821f59f1aba0ee2f11cb1f4b9cffbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 02/43] fix: do not take random starting points from a
 generator shared by the layers

Layers are processed concurrently, so the numbers drawn from the global generator
(even when seeded per layer) depended on how the worker threads interleaved, and
the g-code with them.
---
 src/FffGcodeWriter.cpp           |  6 ++++--
 src/InfillOrderOptimizer.cpp     | 13 ++++++++-----
 src/infill/LightningTreeNode.cpp |  3 ++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index cbb065a..1fa4244 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -11,6 +11,7 @@
 #include <numbers>
 #include <numeric>
 #include <optional>
+#include <random>
 #include <unordered_set>
 
 #include <range/v3/view/chunk_by.hpp>
@@ -2050,8 +2051,9 @@ bool FffGcodeWriter::processMultiLayerInfill(
                 bool reverse_print_direction = false;
                 if (mesh.settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::START_RANDOM)
                 {
-                    srand(gcode_layer.getLayerNr());
-                    near_start_location = infill_lines[rand() % infill_lines.size()][0];
+                    // Not the global generator: the layers are processed concurrently, so its state would depend on their interleaving.
+                    std::mt19937 random_generator(static_cast<uint32_t>(static_cast<int>(gcode_layer.getLayerNr())));
+                    near_start_location = infill_lines[random_generator() % infill_lines.size()][0];
                 }
                 else if (near_end_location.has_value()) // Handles InfillStartEndPreference::END_CLOSE_TO_SEAM which is calculated earlier
                 {
diff --git a/src/InfillOrderOptimizer.cpp b/src/InfillOrderOptimizer.cpp
index 62bb725..e9f614a 100644
--- a/src/InfillOrderOptimizer.cpp
+++ b/src/InfillOrderOptimizer.cpp
@@ -3,6 +3,8 @@
 
 #include "InfillOrderOptimizer.h"
 
+#include <random>
+
 #include <range/v3/algorithm/all_of.hpp>
 #include <range/v3/algorithm/any_of.hpp>
 #include <range/v3/algorithm/find_if.hpp>
@@ -170,19 +172,20 @@ bool InfillOrderOptimizer::addToLayer(
     std::optional<Point2LL> near_start_location;
     if (settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::START_RANDOM)
     {
-        srand(layer_plan.getLayerNr());
+        // Not the global generator: the layers are processed concurrently, so its state would depend on their interleaving.
+        std::mt19937 random_generator(static_cast<uint32_t>(static_cast<int>(layer_plan.getLayerNr())));
         const InfillPart& first_part = infill_parts_.front();
         if (first_part.area == InfillPartArea::Infill)
         {
             switch (first_part.type)
             {
             case InfillPartType::Lines:
-                near_start_location = first_part.paths.lines->at(rand() % first_part.paths.lines->size())[0];
+                near_start_location = first_part.paths.lines->at(random_generator() % first_part.paths.lines->size())[0];
                 break;
             case InfillPartType::Polygons:
             {
-                const Polygon& start_poly = first_part.paths.polygons->at(rand() % first_part.paths.polygons->size());
-                near_start_location = start_poly[rand() % start_poly.size()];
+                const Polygon& start_poly = first_part.paths.polygons->at(random_generator() % first_part.paths.polygons->size());
+                near_start_location = start_poly[random_generator() % start_poly.size()];
                 break;
             }
             case InfillPartType::ExtrusionLines:
@@ -190,7 +193,7 @@ bool InfillOrderOptimizer::addToLayer(
                 const std::vector<VariableWidthLines>* start_paths;
                 do
                 {
-                    start_paths = &first_part.paths.extrusion_lines->at(rand() % first_part.paths.extrusion_lines->size());
+                    start_paths = &first_part.paths.extrusion_lines->at(random_generator() % first_part.paths.extrusion_lines->size());
                 } while (start_paths->empty() || start_paths->front().empty()); // We know for sure that one of them is not empty. So randomise until we hit
                                                                                 // it. Should almost always be very quick.
                 near_start_location = (*start_paths)[0][0].junctions_[0].p_;
diff --git a/src/infill/LightningTreeNode.cpp b/src/infill/LightningTreeNode.cpp
index 9a7a814..a99d204 100644
--- a/src/infill/LightningTreeNode.cpp
+++ b/src/infill/LightningTreeNode.cpp
@@ -371,7 +371,8 @@ void LightningTreeNode::convertToPolylines(size_t long_line_idx, OpenLinesSet& o
         output[long_line_idx].push_back(p_);
         return;
     }
-    size_t first_child_idx = rand() % children_.size();
+    // An arbitrary child, but always the same one: a random number would depend on the order in which the layers happen to be processed.
+    size_t first_child_idx = std::hash<Point2LL>{}(p_) % children_.size();
     children_[first_child_idx]->convertToPolylines(long_line_idx, output);
     output[long_line_idx].push_back(p_);
 
-- 
2.43.0


From 257dc4e3d1a0e51d785e2ed898fd716233799633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 03/43] fix: pass a thickness for the walls around the infill

Infill::generateWallToolPaths takes the total thickness of the walls. It was given
the number of walls, i.e. a thickness of a few microns and hence zero walls, which
made the beading strategy index its empty result out of bounds.
---
 src/skin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 2cdc020..33400fb 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -656,7 +656,7 @@ void SkinInfillAreaComputation::generateGradualInfill(SliceMeshStorage& mesh)
             const Shape& infill_area = Infill::generateWallToolPaths(
                 part.infill_wall_toolpaths,
                 part.getOwnInfillArea(),
-                infill_wall_count,
+                infill_wall_count * infill_wall_width,
                 infill_wall_width,
                 mesh.settings,
                 layer_idx,
-- 
2.43.0


From d28787397ee70fec1422e9d8120ec006c6b55bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 04/43] fix: make the meshes of painted areas independent of
 the order in which voxels are visited

The voxels are held in concurrent hash sets that are filled and visited by several
threads. Their order decided which of several equidistant texture positions was
used, where the stitched contours started and the order of the generated faces, so
the g-code of a painted model differed from run to run.
---
 src/MeshMaterialSplitter.cpp | 70 +++++++++++++++++++++++-------------
 src/utils/SpatialLookup.cpp  | 13 +++++++
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/MeshMaterialSplitter.cpp b/src/MeshMaterialSplitter.cpp
index 39fa673..2ab1a67 100644
--- a/src/MeshMaterialSplitter.cpp
+++ b/src/MeshMaterialSplitter.cpp
@@ -1,7 +1,11 @@
 // Copyright (c) 2025 UltiMaker
 // CuraEngine is released under the terms of the AGPLv3 or higher
 
+#include <algorithm>
 #include <execution>
+#include <map>
+#include <mutex>
+#include <tuple>
 #include <unordered_set>
 
 #include <boost/unordered/concurrent_flat_map.hpp>
@@ -304,6 +308,16 @@ std::map<uint8_t, Mesh> makeMeshesFromVoxelsGrid(const VoxelGrid& voxel_grid, co
 #endif
         [](auto& raw_contour)
         {
+            // The squares have been visited in an arbitrary order. Sort the segments so that the polygons always start at the same point.
+            OpenLinesSet& segments = raw_contour.second.segments;
+            std::sort(
+                segments.begin(),
+                segments.end(),
+                [](const OpenPolyline& a, const OpenPolyline& b)
+                {
+                    return std::tie(a.front().X, a.front().Y, a.back().X, a.back().Y) < std::tie(b.front().X, b.front().Y, b.back().X, b.back().Y);
+                });
+
             OpenLinesSet result_lines;
             OpenPolylineStitcher::stitch(raw_contour.second.segments, result_lines, raw_contour.second.polygons);
         });
@@ -312,42 +326,48 @@ std::map<uint8_t, Mesh> makeMeshesFromVoxelsGrid(const VoxelGrid& voxel_grid, co
     const double min_distance = std::min({ voxel_grid.getResolution().x_, voxel_grid.getResolution().y_, voxel_grid.getResolution().z_ }) / 2.0;
     Simplify simplifier(min_distance, min_distance / 2, std::numeric_limits<coord_t>::max());
 
-    std::map<uint8_t, Mesh> meshes;
+    std::map<std::pair<uint8_t, uint16_t>, Shape> simplified_contours; // By value, then Z, so that the faces are always added in the same order
     std::mutex mutex;
     raw_contours.visit_all(
 #ifdef __cpp_lib_execution
         std::execution::par,
 #endif
-        [&simplifier, &voxel_grid, &meshes, &mutex, &mesh_settings](const auto& contour)
+        [&simplifier, &simplified_contours, &mutex](const auto& contour)
         {
-            const uint16_t z = contour.first.definition.z;
-            const uint8_t feature_value = contour.first.definition.feature_value;
-            const coord_t z_low = voxel_grid.toGlobalZ(z, false);
-            const coord_t z_high = voxel_grid.toGlobalZ(z + 1, false);
-
             // Add a small offset to make sure overlapping edges won't let any space in between
             constexpr int offset_overlapping = 5;
-            const Shape simplified_polygons = simplifier.polygon(contour.second.polygons).offset(offset_overlapping);
-            for (const Polygon& simplified_polygon : simplified_polygons)
+            Shape simplified_polygons = simplifier.polygon(contour.second.polygons).offset(offset_overlapping);
+
+            const std::lock_guard lock(mutex);
+            simplified_contours.emplace(std::make_pair(contour.first.definition.feature_value, contour.first.definition.z), std::move(simplified_polygons));
+        });
+
+    std::map<uint8_t, Mesh> meshes;
+    for (const auto& [key, simplified_polygons] : simplified_contours)
+    {
+        const auto [feature_value, z] = key;
+        const coord_t z_low = voxel_grid.toGlobalZ(z, false);
+        const coord_t z_high = voxel_grid.toGlobalZ(z + 1, false);
+
+        for (const Polygon& simplified_polygon : simplified_polygons)
+        {
+            const auto mesh_iterator = meshes.find(feature_value);
+            if (mesh_iterator == meshes.end())
             {
-                const std::lock_guard lock(mutex);
-                const auto mesh_iterator = meshes.find(feature_value);
-                if (mesh_iterator == meshes.end())
-                {
-                    const Settings settings = mesh_settings.value_or(Application::getInstance().current_slice_->scene.extruders[feature_value].settings_);
-                    meshes.insert({ feature_value, Mesh(settings) });
-                }
+                const Settings settings = mesh_settings.value_or(Application::getInstance().current_slice_->scene.extruders[feature_value].settings_);
+                meshes.insert({ feature_value, Mesh(settings) });
+            }
 
-                Mesh& mesh = meshes[feature_value];
-                for (auto iterator = simplified_polygon.beginSegments(); iterator != simplified_polygon.endSegments(); ++iterator)
-                {
-                    const Point2LL& start = (*iterator).start;
-                    const Point2LL& end = (*iterator).end;
-                    mesh.addFace(Point3LL(start, z_low), Point3LL(end, z_low), Point3LL(end, z_high));
-                    mesh.addFace(Point3LL(end, z_high), Point3LL(start, z_high), Point3LL(start, z_low));
-                }
+            Mesh& mesh = meshes[feature_value];
+            for (auto iterator = simplified_polygon.beginSegments(); iterator != simplified_polygon.endSegments(); ++iterator)
+            {
+                const Point2LL& start = (*iterator).start;
+                const Point2LL& end = (*iterator).end;
+                mesh.addFace(Point3LL(start, z_low), Point3LL(end, z_low), Point3LL(end, z_high));
+                mesh.addFace(Point3LL(end, z_high), Point3LL(start, z_high), Point3LL(start, z_low));
             }
-        });
+        }
+    }
 
     return meshes;
 }
diff --git a/src/utils/SpatialLookup.cpp b/src/utils/SpatialLookup.cpp
index 54266a0..2be270a 100644
--- a/src/utils/SpatialLookup.cpp
+++ b/src/utils/SpatialLookup.cpp
@@ -3,6 +3,10 @@
 
 #include "utils/SpatialLookup.h"
 
+#include <algorithm>
+#include <mutex>
+#include <tuple>
+
 #include "utils/VoxelGrid.h"
 
 
@@ -32,6 +36,15 @@ SpatialLookup SpatialLookup::makeSpatialLookupFromVoxelGrid(const VoxelGrid& vox
             spatial_lookup.occupied_positions_.push_back(occupied_position);
         });
 
+    // The voxels have been visited in an arbitrary order. Sort them so that among equidistant positions, it is always the same one that is found.
+    std::sort(
+        spatial_lookup.occupied_positions_.begin(),
+        spatial_lookup.occupied_positions_.end(),
+        [](const OccupiedPosition& a, const OccupiedPosition& b)
+        {
+            return std::tie(a.position.x_, a.position.y_, a.position.z_) < std::tie(b.position.x_, b.position.y_, b.position.z_);
+        });
+
     spatial_lookup.lookup_tree_ = LookupTree(spatial_lookup.occupied_positions_.begin(), spatial_lookup.occupied_positions_.end());
 
     return spatial_lookup;
-- 
2.43.0


From 5e77cd762ca73b6cb547266ec77fdcc5016aca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 05/43] fix: wait for all workers of a pipeline, also when
 woken up for no reason

A condition variable may wake up spuriously. The pipeline then returned, and
was destroyed, while workers were still producing.
---
 include/utils/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index ed8db06..0af72a8 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -296,7 +296,7 @@ public:
         // Run a worker on the main thread
         worker(lock);
         // Wait for completion of all workers
-        if (workers_count_ > 0)
+        while (workers_count_ > 0) // A wait may end without a notification
         {
             work_done_cond_.wait(lock);
         }
-- 
2.43.0


From b9a74fa31c6bdec96f0e868ef4fdac9d405231c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 06/43] fix: start a pool without extra threads when the number
 of processors is unknown

---
 src/Application.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Application.cpp b/src/Application.cpp
index 8283196..065e484 100644
--- a/src/Application.cpp
+++ b/src/Application.cpp
@@ -3,6 +3,7 @@
 
 #include "Application.h"
 
+#include <algorithm>
 #include <chrono>
 #include <memory>
 #include <string>
@@ -287,7 +288,8 @@ void Application::startThreadPool(int nworkers)
         {
             return; // Keep the previous ThreadPool
         }
-        nthreads = std::thread::hardware_concurrency() - 1;
+        // The number of processors is reported as 0 when it is not known
+        nthreads = std::max(1u, std::thread::hardware_concurrency()) - 1;
     }
     else
     {
-- 
2.43.0


From c5d70fcf58f8596ccf748be71252db5e3d5569be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 07/43] fix: keep pipelines that start at a very negative index
 inside their ring buffer

Indices below minus the size of the ring, as filler layers below a raft can
have, addressed slots in front of the buffer.
---
 include/utils/ThreadPool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index 0af72a8..5bba0eb 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -303,6 +303,13 @@ public:
     }
 
 protected:
+    //! The slot of the ring for an index, which may be negative by more than the size of the ring
+    item_t& slotOf(const ptrdiff_t idx)
+    {
+        const ptrdiff_t slot = idx % max_pending_;
+        return queue_[slot < 0 ? slot + max_pending_ : slot];
+    }
+
     //! Waits for free space in the ring. Returns false when work is completed.
     bool wait(lock_t& lock)
     {
@@ -327,7 +334,7 @@ protected:
     ptrdiff_t produce(lock_t& lock)
     {
         ptrdiff_t produced_idx = write_idx_++;
-        item_t* slot = &queue_[(produced_idx + max_pending_) % max_pending_];
+        item_t* slot = &slotOf(produced_idx);
         assert(produced_idx < last_idx_);
 
         // Unlocks global mutex while producing an item
@@ -346,7 +353,7 @@ protected:
     void consume_many(lock_t& lock)
     {
         assert(read_idx_ < write_idx_);
-        for (item_t* slot = &queue_[(read_idx_ + max_pending_) % max_pending_]; *slot; slot = &queue_[(read_idx_ + max_pending_) % max_pending_])
+        for (item_t* slot = &slotOf(read_idx_); *slot; slot = &slotOf(read_idx_))
         {
             // Unlocks global mutex while consuming an item
             lock.unlock();
-- 
2.43.0


From 381e76bc9519de02fa72682d3a56da188bfb8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 08/43] fix: process the elements of tree support in an order
 that does not depend on memory addresses

---
 include/TreeSupport.h             | 18 ++++++-------
 include/TreeSupportElement.h      | 43 +++++++++++++++++++++++++++++++
 include/TreeSupportTipGenerator.h |  8 +++---
 src/TreeSupport.cpp               | 22 ++++++++--------
 src/TreeSupportTipGenerator.cpp   | 10 +++----
 5 files changed, 72 insertions(+), 29 deletions(-)

diff --git a/include/TreeSupport.h b/include/TreeSupport.h
index 79860b6..32bcff6 100644
--- a/include/TreeSupport.h
+++ b/include/TreeSupport.h
@@ -118,7 +118,7 @@ private:
      * \param move_bounds[out] Storage for the influence areas.
      * \param storage[in] Background storage, required for adding roofs.
      */
-    void generateInitialAreas(const SliceMeshStorage& mesh, std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage);
+    void generateInitialAreas(const SliceMeshStorage& mesh, std::vector<TreeSupportElementSet>& move_bounds, SliceDataStorage& storage);
 
 
     /*!
@@ -230,7 +230,7 @@ private:
      *
      * \param move_bounds[in,out] All currently existing influence areas
      */
-    void createLayerPathing(std::vector<std::set<TreeSupportElement*>>& move_bounds);
+    void createLayerPathing(std::vector<TreeSupportElementSet>& move_bounds);
 
 
     /*!
@@ -248,14 +248,14 @@ private:
      * \param layer_idx[in] The current layer.
      * \return Should elem be deleted.
      */
-    bool setToModelContact(std::vector<std::set<TreeSupportElement*>>& move_bounds, TreeSupportElement* first_elem, const LayerIndex layer_idx);
+    bool setToModelContact(std::vector<TreeSupportElementSet>& move_bounds, TreeSupportElement* first_elem, const LayerIndex layer_idx);
 
     /*!
      * \brief Set the result_on_layer point for all influence areas
      *
      * \param move_bounds[in,out] All currently existing influence areas
      */
-    void createNodesFromArea(std::vector<std::set<TreeSupportElement*>>& move_bounds);
+    void createNodesFromArea(std::vector<TreeSupportElementSet>& move_bounds);
 
     /*!
      * \brief Draws circles around result_on_layer points of the influence areas
@@ -267,7 +267,7 @@ private:
      */
     void generateBranchAreas(
         std::vector<std::pair<LayerIndex, TreeSupportElement*>>& linear_data,
-        std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons,
+        std::vector<TreeSupportElementAreas>& layer_tree_polygons,
         const std::map<TreeSupportElement*, TreeSupportElement*>& inverse_tree_order);
 
     /*!
@@ -275,7 +275,7 @@ private:
      *
      * \param layer_tree_polygons[in,out] Resulting branch areas with the layerindex they appear on.
      */
-    void smoothBranchAreas(std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons);
+    void smoothBranchAreas(std::vector<TreeSupportElementAreas>& layer_tree_polygons);
 
     /*!
      * \brief Drop down areas that do rest non-gracefully on the model to ensure the branch actually rests on something.
@@ -286,7 +286,7 @@ private:
      * \param inverse_tree_order[in] A mapping that returns the child of every influence area.
      */
     void dropNonGraciousAreas(
-        std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons,
+        std::vector<TreeSupportElementAreas>& layer_tree_polygons,
         const std::vector<std::pair<LayerIndex, TreeSupportElement*>>& linear_data,
         std::vector<std::vector<std::pair<LayerIndex, Shape>>>& dropped_down_areas,
         const std::map<TreeSupportElement*, TreeSupportElement*>& inverse_tree_order);
@@ -315,13 +315,13 @@ private:
      * \param move_bounds[in] All currently existing influence areas
      * \param storage[in,out] The storage where the support should be stored.
      */
-    void drawAreas(std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage);
+    void drawAreas(std::vector<TreeSupportElementSet>& move_bounds, SliceDataStorage& storage);
 
     /*!
      * Saves the influence areas and the resulting positions of all the given elements to a 3D object
      * @para move_bounds The elements to be saved, sorted per layer
      */
-    void saveToObj(const std::vector<std::set<TreeSupportElement*>>& move_bounds, OBJ& obj) const;
+    void saveToObj(const std::vector<TreeSupportElementSet>& move_bounds, OBJ& obj) const;
 
     /*!
      * \brief Settings with the indexes of meshes that use these settings.
diff --git a/include/TreeSupportElement.h b/include/TreeSupportElement.h
index b5761ae..510d54a 100644
--- a/include/TreeSupportElement.h
+++ b/include/TreeSupportElement.h
@@ -2,8 +2,12 @@
 #ifndef TREESUPPORTELEMENT_H
 #define TREESUPPORTELEMENT_H
 
+#include <functional>
 #include <map>
+#include <set>
+#include <tuple>
 #include <unordered_map>
+#include <utility>
 
 #include <boost/container_hash/hash.hpp>
 
@@ -252,6 +256,45 @@ struct TreeSupportElement
     std::vector<Point2LL> additional_ovalization_targets_;
 };
 
+/*!
+ * \brief Order of elements of a layer by what they are instead of by where they are in memory, so that whatever is calculated from a sequence of elements is reproducible.
+ *
+ * All fields that are compared stay the same during the life of an element. Different elements are never equivalent.
+ */
+struct TreeSupportElementOrder
+{
+    bool operator()(const TreeSupportElement* first, const TreeSupportElement* second) const
+    {
+        if (first == second)
+        {
+            return false;
+        }
+        const auto key = [](const TreeSupportElement* elem)
+        {
+            return std::make_tuple(elem->target_height_, elem->target_position_.X, elem->target_position_.Y, elem->distance_to_top_, elem->all_tips_.size());
+        };
+        const auto first_key = key(first);
+        const auto second_key = key(second);
+        if (first_key != second_key)
+        {
+            return first_key < second_key;
+        }
+        for (size_t tip_idx = 0; tip_idx < first->all_tips_.size(); tip_idx++)
+        {
+            const Point2LL& first_tip = first->all_tips_[tip_idx];
+            const Point2LL& second_tip = second->all_tips_[tip_idx];
+            if (first_tip != second_tip)
+            {
+                return std::make_pair(first_tip.X, first_tip.Y) < std::make_pair(second_tip.X, second_tip.Y);
+            }
+        }
+        return std::less<const TreeSupportElement*>()(first, second);
+    }
+};
+
+using TreeSupportElementSet = std::set<TreeSupportElement*, TreeSupportElementOrder>;
+using TreeSupportElementAreas = std::map<TreeSupportElement*, Shape, TreeSupportElementOrder>;
+
 } // namespace cura
 
 namespace std
diff --git a/include/TreeSupportTipGenerator.h b/include/TreeSupportTipGenerator.h
index a493b49..9a0dfa3 100644
--- a/include/TreeSupportTipGenerator.h
+++ b/include/TreeSupportTipGenerator.h
@@ -40,7 +40,7 @@ public:
     void generateTips(
         SliceDataStorage& storage,
         const SliceMeshStorage& mesh,
-        std::vector<std::set<TreeSupportElement*>>& move_bounds,
+        std::vector<TreeSupportElementSet>& move_bounds,
         std::vector<Shape>& additional_support_areas,
         std::vector<std::vector<FakeRoofArea>>& placed_fake_roof_areas);
 
@@ -141,7 +141,7 @@ private:
      * \param skip_ovalisation[in] Whether the tip may be ovalized when drawn later.
      */
     void addPointAsInfluenceArea(
-        std::vector<std::set<TreeSupportElement*>>& move_bounds,
+        std::vector<TreeSupportElementSet>& move_bounds,
         std::pair<Point2LL, LineStatus> p,
         size_t dtt,
         LayerIndex insert_layer,
@@ -161,7 +161,7 @@ private:
      * \param dont_move_until[in] Until which dtt the branch should not move if possible.
      */
     void addLinesAsInfluenceAreas(
-        std::vector<std::set<TreeSupportElement*>>& move_bounds,
+        std::vector<TreeSupportElementSet>& move_bounds,
         std::vector<TreeSupportTipGenerator::LineInformation> lines,
         size_t roof_tip_layers,
         LayerIndex insert_layer_idx,
@@ -175,7 +175,7 @@ private:
      * \param storage[in] Background storage, required for adding roofs.
      * \param additional_support_areas[in] Areas that should have been roofs, but are now support, as they would not generate any lines as roof.
      */
-    void removeUselessAddedPoints(std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage, std::vector<Shape>& additional_support_areas);
+    void removeUselessAddedPoints(std::vector<TreeSupportElementSet>& move_bounds, SliceDataStorage& storage, std::vector<Shape>& additional_support_areas);
 
     /*!
      * \brief Contains config settings to avoid loading them in every function. This was done to improve readability of the code.
diff --git a/src/TreeSupport.cpp b/src/TreeSupport.cpp
index b188545..5885fe2 100644
--- a/src/TreeSupport.cpp
+++ b/src/TreeSupport.cpp
@@ -120,7 +120,7 @@ void TreeSupport::generateSupportAreas(SliceDataStorage& storage)
     for (auto [counter, processing] : grouped_meshes | ranges::views::enumerate)
     {
         // process each combination of meshes
-        std::vector<std::set<TreeSupportElement*>> move_bounds(
+        std::vector<TreeSupportElementSet> move_bounds(
             storage.support.supportLayers
                 .size()); // Value is the area where support may be placed. As this is calculated in CreateLayerPathing it is saved and reused in drawAreas.
 
@@ -260,7 +260,7 @@ LayerIndex TreeSupport::precalculate(const SliceDataStorage& storage, std::vecto
 }
 
 
-void TreeSupport::generateInitialAreas(const SliceMeshStorage& mesh, std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage)
+void TreeSupport::generateInitialAreas(const SliceMeshStorage& mesh, std::vector<TreeSupportElementSet>& move_bounds, SliceDataStorage& storage)
 {
     TreeSupportTipGenerator tip_gen(mesh, volumes_);
     tip_gen.generateTips(storage, mesh, move_bounds, additional_required_support_area, fake_roof_areas);
@@ -1285,7 +1285,7 @@ void TreeSupport::increaseAreas(
         });
 }
 
-void TreeSupport::createLayerPathing(std::vector<std::set<TreeSupportElement*>>& move_bounds)
+void TreeSupport::createLayerPathing(std::vector<TreeSupportElementSet>& move_bounds)
 {
     const double data_size_inverse = 1 / double(move_bounds.size());
     double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES;
@@ -1417,7 +1417,7 @@ void TreeSupport::setPointsOnAreas(const TreeSupportElement* elem)
     }
 }
 
-bool TreeSupport::setToModelContact(std::vector<std::set<TreeSupportElement*>>& move_bounds, TreeSupportElement* first_elem, const LayerIndex layer_idx)
+bool TreeSupport::setToModelContact(std::vector<TreeSupportElementSet>& move_bounds, TreeSupportElement* first_elem, const LayerIndex layer_idx)
 {
     if (first_elem->to_model_gracious_)
     {
@@ -1552,7 +1552,7 @@ bool TreeSupport::setToModelContact(std::vector<std::set<TreeSupportElement*>>&
     }
 }
 
-void TreeSupport::createNodesFromArea(std::vector<std::set<TreeSupportElement*>>& move_bounds)
+void TreeSupport::createNodesFromArea(std::vector<TreeSupportElementSet>& move_bounds)
 {
     // Initialize points on layer 0, with a "random" point in the influence area. Point is chosen based on an inaccurate estimate where the branches will split into two, but every
     // point inside the influence area would produce a valid result.
@@ -1649,7 +1649,7 @@ void TreeSupport::createNodesFromArea(std::vector<std::set<TreeSupportElement*>>
 
 void TreeSupport::generateBranchAreas(
     std::vector<std::pair<LayerIndex, TreeSupportElement*>>& linear_data,
-    std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons,
+    std::vector<TreeSupportElementAreas>& layer_tree_polygons,
     const std::map<TreeSupportElement*, TreeSupportElement*>& inverse_tree_order)
 {
     double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES + TREE_PROGRESS_AREA_CALC;
@@ -1806,7 +1806,7 @@ void TreeSupport::generateBranchAreas(
     }
 }
 
-void TreeSupport::smoothBranchAreas(std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons)
+void TreeSupport::smoothBranchAreas(std::vector<TreeSupportElementAreas>& layer_tree_polygons)
 {
     double progress_total = TREE_PROGRESS_PRECALC_AVO + TREE_PROGRESS_PRECALC_COLL + TREE_PROGRESS_GENERATE_NODES + TREE_PROGRESS_AREA_CALC + TREE_PROGRESS_GENERATE_BRANCH_AREAS;
     const coord_t max_radius_change_per_layer = 1 + config.support_line_width / 2; // This is the upper limit a radius may change per layer. +1 to avoid rounding errors.
@@ -1928,7 +1928,7 @@ void TreeSupport::smoothBranchAreas(std::vector<std::unordered_map<TreeSupportEl
 }
 
 void TreeSupport::dropNonGraciousAreas(
-    std::vector<std::unordered_map<TreeSupportElement*, Shape>>& layer_tree_polygons,
+    std::vector<TreeSupportElementAreas>& layer_tree_polygons,
     const std::vector<std::pair<LayerIndex, TreeSupportElement*>>& linear_data,
     std::vector<std::vector<std::pair<LayerIndex, Shape>>>& dropped_down_areas,
     const std::map<TreeSupportElement*, TreeSupportElement*>& inverse_tree_order)
@@ -2351,7 +2351,7 @@ void TreeSupport::finalizeInterfaceAndSupportAreas(
         });
 }
 
-void TreeSupport::drawAreas(std::vector<std::set<TreeSupportElement*>>& move_bounds, SliceDataStorage& storage)
+void TreeSupport::drawAreas(std::vector<TreeSupportElementSet>& move_bounds, SliceDataStorage& storage)
 {
     std::vector<Shape> support_layer_storage(move_bounds.size());
     std::vector<Shape> support_layer_storage_fractional(move_bounds.size());
@@ -2387,7 +2387,7 @@ void TreeSupport::drawAreas(std::vector<std::set<TreeSupportElement*>>& move_bou
     }
 
     // Reorder the processed data by layers again. The map also could be a vector<pair<SupportElement*,Shape>>:
-    std::vector<std::unordered_map<TreeSupportElement*, Shape>> layer_tree_polygons(move_bounds.size());
+    std::vector<TreeSupportElementAreas> layer_tree_polygons(move_bounds.size());
     const auto t_start = std::chrono::high_resolution_clock::now();
 
     // Generate the circles that will be the branches.
@@ -2528,7 +2528,7 @@ void TreeSupport::drawAreas(std::vector<std::set<TreeSupportElement*>>& move_bou
         dur_finalize);
 }
 
-void TreeSupport::saveToObj(const std::vector<std::set<TreeSupportElement*>>& move_bounds, OBJ& obj) const
+void TreeSupport::saveToObj(const std::vector<TreeSupportElementSet>& move_bounds, OBJ& obj) const
 {
     for (const auto [layer_index, elements] : move_bounds | ranges::views::enumerate)
     {
diff --git a/src/TreeSupportTipGenerator.cpp b/src/TreeSupportTipGenerator.cpp
index 6f60eec..aec66b3 100644
--- a/src/TreeSupportTipGenerator.cpp
+++ b/src/TreeSupportTipGenerator.cpp
@@ -624,7 +624,7 @@ void TreeSupportTipGenerator::calculateRoofAreas(const cura::SliceMeshStorage& m
 
 
 void TreeSupportTipGenerator::addPointAsInfluenceArea(
-    std::vector<std::set<TreeSupportElement*>>& move_bounds,
+    std::vector<TreeSupportElementSet>& move_bounds,
     std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> p,
     size_t dtt,
     LayerIndex insert_layer,
@@ -682,7 +682,7 @@ void TreeSupportTipGenerator::addPointAsInfluenceArea(
 
 
 void TreeSupportTipGenerator::addLinesAsInfluenceAreas(
-    std::vector<std::set<TreeSupportElement*>>& move_bounds,
+    std::vector<TreeSupportElementSet>& move_bounds,
     std::vector<TreeSupportTipGenerator::LineInformation> lines,
     size_t roof_tip_layers,
     LayerIndex insert_layer_idx,
@@ -794,7 +794,7 @@ void TreeSupportTipGenerator::addLinesAsInfluenceAreas(
 
 
 void TreeSupportTipGenerator::removeUselessAddedPoints(
-    std::vector<std::set<TreeSupportElement*>>& move_bounds,
+    std::vector<TreeSupportElementSet>& move_bounds,
     SliceDataStorage& storage,
     std::vector<Shape>& additional_support_areas)
 {
@@ -846,11 +846,11 @@ void TreeSupportTipGenerator::removeUselessAddedPoints(
 void TreeSupportTipGenerator::generateTips(
     SliceDataStorage& storage,
     const SliceMeshStorage& mesh,
-    std::vector<std::set<TreeSupportElement*>>& move_bounds,
+    std::vector<TreeSupportElementSet>& move_bounds,
     std::vector<Shape>& additional_support_areas,
     std::vector<std::vector<FakeRoofArea>>& placed_fake_roof_areas)
 {
-    std::vector<std::set<TreeSupportElement*>> new_tips(move_bounds.size());
+    std::vector<TreeSupportElementSet> new_tips(move_bounds.size());
 
     const coord_t circle_length_to_half_linewidth_change
         = config_.min_radius < config_.support_line_width ? config_.min_radius / 2 : sqrt(square(config_.min_radius) - square(config_.min_radius - config_.support_line_width / 2));
-- 
2.43.0


From 02afd034ce1a17237efc28c938491240f6925095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 09/43] fix: choose between tips of tree support independently
 of the order in which layers are processed

---
 include/TreeSupportTipGenerator.h | 23 +++++++--
 src/TreeSupportTipGenerator.cpp   | 84 ++++++++++++++++++-------------
 2 files changed, 67 insertions(+), 40 deletions(-)

diff --git a/include/TreeSupportTipGenerator.h b/include/TreeSupportTipGenerator.h
index 9a0dfa3..09522e9 100644
--- a/include/TreeSupportTipGenerator.h
+++ b/include/TreeSupportTipGenerator.h
@@ -57,6 +57,20 @@ private:
 
     using LineInformation = std::vector<std::pair<Point2LL, TreeSupportTipGenerator::LineStatus>>;
 
+    /*!
+     * \brief A tip that is going to be added, see addPointAsInfluenceArea for the meaning of its fields.
+     */
+    struct PendingTip
+    {
+        std::pair<Point2LL, LineStatus> point_data_;
+        size_t dtt_;
+        LayerIndex insert_layer_;
+        size_t dont_move_until_;
+        bool roof_;
+        bool skip_ovalisation_;
+        std::vector<Point2LL> additional_ovalization_targets_;
+    };
+
     /*!
      * \brief Converts a Polygons object representing a line into the internal format.
      *
@@ -142,18 +156,18 @@ private:
      */
     void addPointAsInfluenceArea(
         std::vector<TreeSupportElementSet>& move_bounds,
-        std::pair<Point2LL, LineStatus> p,
+        const std::pair<Point2LL, LineStatus>& p,
         size_t dtt,
         LayerIndex insert_layer,
         size_t dont_move_until,
         bool roof,
         bool skip_ovalisation,
-        std::vector<Point2LL> additional_ovalization_targets = std::vector<Point2LL>());
+        const std::vector<Point2LL>& additional_ovalization_targets);
 
 
     /*!
      * \brief Add all points of a line as a tip
-     * \param move_bounds[out] The storage for the tips.
+     * \param tips[out] The tips to be added, in order.
      * \param lines[in] The lines of which points will be added.
      * \param roof_tip_layers[in] Amount of layers the tip should be drawn as roof.
      * \param insert_layer_idx[in] The layer the tip will be on.
@@ -161,7 +175,7 @@ private:
      * \param dont_move_until[in] Until which dtt the branch should not move if possible.
      */
     void addLinesAsInfluenceAreas(
-        std::vector<TreeSupportElementSet>& move_bounds,
+        std::vector<PendingTip>& tips,
         std::vector<TreeSupportTipGenerator::LineInformation> lines,
         size_t roof_tip_layers,
         LayerIndex insert_layer_idx,
@@ -309,7 +323,6 @@ private:
      */
     std::vector<Shape> roof_tips_drawn_;
 
-    std::mutex critical_move_bounds_;
     std::mutex critical_roof_tips_;
 };
 
diff --git a/src/TreeSupportTipGenerator.cpp b/src/TreeSupportTipGenerator.cpp
index aec66b3..66cde98 100644
--- a/src/TreeSupportTipGenerator.cpp
+++ b/src/TreeSupportTipGenerator.cpp
@@ -625,13 +625,13 @@ void TreeSupportTipGenerator::calculateRoofAreas(const cura::SliceMeshStorage& m
 
 void TreeSupportTipGenerator::addPointAsInfluenceArea(
     std::vector<TreeSupportElementSet>& move_bounds,
-    std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> p,
+    const std::pair<Point2LL, TreeSupportTipGenerator::LineStatus>& p,
     size_t dtt,
     LayerIndex insert_layer,
     size_t dont_move_until,
     bool roof,
     bool skip_ovalisation,
-    std::vector<Point2LL> additional_ovalization_targets)
+    const std::vector<Point2LL>& additional_ovalization_targets)
 {
     const bool to_bp = p.second == LineStatus::TO_BP || p.second == LineStatus::TO_BP_SAFE;
     const bool gracious = to_bp || p.second == LineStatus::TO_MODEL_GRACIOUS || p.second == LineStatus::TO_MODEL_GRACIOUS_SAFE;
@@ -648,41 +648,38 @@ void TreeSupportTipGenerator::addPointAsInfluenceArea(
         circle.push_back(p.first + corner);
     }
     Shape area = circle.offset(0);
+    if (! already_inserted_[insert_layer].count(p.first / ((config_.min_radius + 1) / 10)))
     {
-        std::lock_guard<std::mutex> critical_section_movebounds(critical_move_bounds_);
-        if (! already_inserted_[insert_layer].count(p.first / ((config_.min_radius + 1) / 10)))
+        // Normalize the point a bit to also catch points which are so close that inserting it would achieve nothing.
+        already_inserted_[insert_layer].emplace(p.first / ((config_.min_radius + 1) / 10));
+        TreeSupportElement* elem = new TreeSupportElement(
+            dtt,
+            insert_layer,
+            p.first,
+            to_bp,
+            gracious,
+            ! xy_overrides_,
+            dont_move_until,
+            roof,
+            safe_radius,
+            ! roof && force_tip_to_roof_,
+            skip_ovalisation,
+            support_tree_limit_branch_reach_,
+            support_tree_branch_reach_limit_);
+        elem->area_ = new Shape(area);
+
+        for (Point2LL target : additional_ovalization_targets)
         {
-            // Normalize the point a bit to also catch points which are so close that inserting it would achieve nothing.
-            already_inserted_[insert_layer].emplace(p.first / ((config_.min_radius + 1) / 10));
-            TreeSupportElement* elem = new TreeSupportElement(
-                dtt,
-                insert_layer,
-                p.first,
-                to_bp,
-                gracious,
-                ! xy_overrides_,
-                dont_move_until,
-                roof,
-                safe_radius,
-                ! roof && force_tip_to_roof_,
-                skip_ovalisation,
-                support_tree_limit_branch_reach_,
-                support_tree_branch_reach_limit_);
-            elem->area_ = new Shape(area);
-
-            for (Point2LL target : additional_ovalization_targets)
-            {
-                elem->additional_ovalization_targets_.emplace_back(target);
-            }
-
-            move_bounds[insert_layer].emplace(elem);
+            elem->additional_ovalization_targets_.emplace_back(target);
         }
+
+        move_bounds[insert_layer].emplace(elem);
     }
 }
 
 
 void TreeSupportTipGenerator::addLinesAsInfluenceAreas(
-    std::vector<TreeSupportElementSet>& move_bounds,
+    std::vector<PendingTip>& tips,
     std::vector<TreeSupportTipGenerator::LineInformation> lines,
     size_t roof_tip_layers,
     LayerIndex insert_layer_idx,
@@ -716,7 +713,7 @@ void TreeSupportTipGenerator::addLinesAsInfluenceAreas(
             {
                 for (std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> point_data : line)
                 {
-                    addPointAsInfluenceArea(move_bounds, point_data, 0, insert_layer_idx - dtt_roof_tip, roof_tip_layers - dtt_roof_tip, dtt_roof_tip != 0, false);
+                    tips.emplace_back(point_data, 0, insert_layer_idx - dtt_roof_tip, roof_tip_layers - dtt_roof_tip, dtt_roof_tip != 0, false);
                 }
             }
 
@@ -728,7 +725,7 @@ void TreeSupportTipGenerator::addLinesAsInfluenceAreas(
             {
                 for (std::pair<Point2LL, TreeSupportTipGenerator::LineStatus> point_data : line)
                 {
-                    addPointAsInfluenceArea(move_bounds, point_data, 0, insert_layer_idx - dtt_roof_tip, roof_tip_layers - dtt_roof_tip, dtt_roof_tip != 0, false);
+                    tips.emplace_back(point_data, 0, insert_layer_idx - dtt_roof_tip, roof_tip_layers - dtt_roof_tip, dtt_roof_tip != 0, false);
                 }
             }
 
@@ -779,8 +776,7 @@ void TreeSupportTipGenerator::addLinesAsInfluenceAreas(
                     additional_ovalization_targets.emplace_back(line[idx + 1].first);
                 }
             }
-            addPointAsInfluenceArea(
-                move_bounds,
+            tips.emplace_back(
                 point_data,
                 0,
                 insert_layer_idx - dtt_roof_tip,
@@ -851,6 +847,7 @@ void TreeSupportTipGenerator::generateTips(
     std::vector<std::vector<FakeRoofArea>>& placed_fake_roof_areas)
 {
     std::vector<TreeSupportElementSet> new_tips(move_bounds.size());
+    std::vector<std::vector<PendingTip>> pending_tips(mesh.overhang_areas.size()); // Per layer of the overhang that needs the tips.
 
     const coord_t circle_length_to_half_linewidth_change
         = config_.min_radius < config_.support_line_width ? config_.min_radius / 2 : sqrt(square(config_.min_radius) - square(config_.min_radius - config_.support_line_width / 2));
@@ -1041,7 +1038,7 @@ void TreeSupportTipGenerator::generateTips(
                         // ^^^ Set all now valid lines to their correct LineStatus. Easiest way is to just discard Avoidance information for each point and evaluate them again.
 
                         addLinesAsInfluenceAreas(
-                            new_tips,
+                            pending_tips[layer_idx],
                             fresh_valid_points,
                             (force_tip_to_roof_ && lag_ctr <= support_roof_layers_) ? support_roof_layers_ : 0,
                             layer_idx - lag_ctr,
@@ -1130,7 +1127,7 @@ void TreeSupportTipGenerator::generateTips(
 
                 size_t dont_move_for_layers = support_roof_layers_ ? (force_tip_to_roof_ ? support_roof_layers_ : (roof_allowed_for_this_part ? 0 : support_roof_layers_)) : 0;
                 addLinesAsInfluenceAreas(
-                    new_tips,
+                    pending_tips[layer_idx],
                     overhang_lines,
                     force_tip_to_roof_ ? support_roof_layers_ : 0,
                     layer_idx,
@@ -1140,6 +1137,23 @@ void TreeSupportTipGenerator::generateTips(
             }
         });
 
+    // Only one of several tips that are very close to each other is kept. Which one it is may not depend on the order in which the layers were processed.
+    for (const std::vector<PendingTip>& tips : pending_tips)
+    {
+        for (const PendingTip& tip : tips)
+        {
+            addPointAsInfluenceArea(
+                new_tips,
+                tip.point_data_,
+                tip.dtt_,
+                tip.insert_layer_,
+                tip.dont_move_until_,
+                tip.roof_,
+                tip.skip_ovalisation_,
+                tip.additional_ovalization_targets_);
+        }
+    }
+
     cura::parallel_for<coord_t>(
         0,
         support_roof_drawn_.size(),
-- 
2.43.0


From b4d5cb401c53cd394dbf47eee85f95d377ab2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 10/43] fix: do not let the number of processors decide which
 areas of tree support are merged

---
 src/TreeSupport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TreeSupport.cpp b/src/TreeSupport.cpp
index 5885fe2..aebbc3c 100644
--- a/src/TreeSupport.cpp
+++ b/src/TreeSupport.cpp
@@ -511,7 +511,7 @@ void TreeSupport::mergeInfluenceAreas(PropertyAreasUnordered& to_bp_areas, Prope
      */
 
     const size_t input_size = influence_areas.size();
-    size_t num_threads = std::max(size_t(1), size_t(std::thread::hardware_concurrency())); // For some reason hardware concurrency can return 0;
+    constexpr size_t max_parallel_buckets = 16; // Not the number of processors: which areas get merged depends on the amount of buckets, and should be the same on every machine.
 
     if (input_size == 0)
     {
@@ -524,7 +524,7 @@ void TreeSupport::mergeInfluenceAreas(PropertyAreasUnordered& to_bp_areas, Prope
     // If halving would cause an uneven count, e.g. 3 Then bucket 0 and 1 would have to be merged, and in the next iteration the last remaining buckets. This is assumed to not be
     // optimal performance-wise.
     const size_t max_bucket_count = std::pow(2, std::floor(std::log(round_up_divide(input_size, min_elements_per_bucket))));
-    int bucket_count = std::min(max_bucket_count, num_threads); // do not use more buckets than available threads.
+    int bucket_count = std::min(max_bucket_count, max_parallel_buckets);
 
     // To achieve that every element in a bucket is already correctly merged with other elements in this bucket
     // an extra empty bucket is created for each bucket, and the elements are merged into the empty one.
-- 
2.43.0


From 52123c39fefaff097025690077b3c107d21f07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 11/43] fix: report failure when the g-code could not be
 written to the output file

---
 src/communication/CommandLine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 3e5e69f..627d4e0 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -496,6 +496,18 @@ void CommandLine::sliceNext()
         exit(1);
     }
 #endif // DEBUG
+
+    // All g-code has been sent to the stream now, but part of it may still be buffered. Don't report success if it can't be written.
+    output_stream_->flush();
+    if (output_file_)
+    {
+        output_file_->close();
+    }
+    if (output_stream_->fail())
+    {
+        spdlog::error("Failed to write all of the g-code to the output.");
+        exit(1);
+    }
 }
 
 int CommandLine::loadJSON(const std::filesystem::path& json_filename, Settings& settings, bool force_read_parent, bool force_read_nondefault)
-- 
2.43.0


From e7c776304c0a8e57ed93fd45aaab2e07338e7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 12/43] fix: find the value of a setting limited to an extruder
 that does not define it itself

---
 src/settings/Settings.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index 0ddf81b..f19266d 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -880,7 +880,15 @@ bool Settings::has(const std::string& key, const bool parent_lookup) const
     const std::unordered_map<std::string, ExtruderTrain*>& limit_to_extruder = Application::getInstance().current_slice_->scene.limit_to_extruder;
     if (limit_to_extruder.find(key) != limit_to_extruder.end())
     {
-        return limit_to_extruder.at(key)->settings_.has(key, parent_lookup);
+        // Like getWithoutLimiting(): don't apply the limit again in the extruder or its parents, that would never end.
+        for (const Settings* container = &limit_to_extruder.at(key)->settings_; container != nullptr; container = container->parent)
+        {
+            if (container->settings.contains(key))
+            {
+                return true;
+            }
+        }
+        return false;
     }
 
     if (parent)
@@ -904,7 +912,7 @@ std::string Settings::getWithoutLimiting(const std::string& key) const
     }
     else if (parent)
     {
-        return parent->get<std::string>(key);
+        return parent->getWithoutLimiting(key); // Not limiting the parent either, since that would lead back to this container.
     }
     else
     {
-- 
2.43.0


From a68e78b34a1cd04fdc49355a3cfc7a0ba9c4e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 13/43] fix: let the settings of a model in a file of resolved
 settings override those of its extruder

---
 src/communication/CommandLine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 627d4e0..a8bb332 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -443,6 +443,12 @@ void CommandLine::sliceNext()
                             spdlog::error("Failed to load model: {} (error number {})", model_name, errno);
                             exit(1);
                         }
+
+                        // The mesh starts with the settings of its extruder, which the settings of the model override.
+                        for (const auto& [setting_key, setting_value] : values)
+                        {
+                            slice->scene.mesh_groups[mesh_group_index].meshes.back().settings_.add(setting_key, setting_value);
+                        }
                     }
                     for (const auto& [key, value] : limit_to_extruder)
                     {
-- 
2.43.0


From 93fe593ab41ceb11a4fd5d4b4d71a9f36bb6d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 14/43] fix: number the extruders before the first one that is
 mentioned by their position

---
 src/communication/CommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index a8bb332..7197d84 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -253,7 +253,7 @@ void CommandLine::sliceNext()
                     size_t extruder_nr = stoul(argument.substr(2));
                     while (slice->scene.extruders.size() <= extruder_nr) // Make sure we have enough extruders up to the extruder_nr that the user wanted.
                     {
-                        slice->scene.extruders.emplace_back(extruder_nr, &slice->scene.settings);
+                        slice->scene.extruders.emplace_back(slice->scene.extruders.size(), &slice->scene.settings);
                     }
                     last_settings = &slice->scene.extruders[extruder_nr].settings_;
                     last_settings->add("extruder_nr", argument.substr(2));
@@ -415,7 +415,7 @@ void CommandLine::sliceNext()
                         const auto extruder_nr = std::stoi(key.substr(extruder_identifier.size()));
                         while (slice->scene.extruders.size() <= static_cast<size_t>(extruder_nr))
                         {
-                            slice->scene.extruders.emplace_back(extruder_nr, &slice->scene.settings);
+                            slice->scene.extruders.emplace_back(slice->scene.extruders.size(), &slice->scene.settings);
                         }
                         for (const auto& [setting_key, setting_value] : values)
                         {
-- 
2.43.0


From 29eaaf5212dc3d3cfba6dcf80401921050b8af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 15/43] fix: fail when the definition of an extruder cannot be
 read

---
 src/communication/CommandLine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 7197d84..d241385 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -591,7 +591,14 @@ int CommandLine::loadJSON(
                 }
                 const std::string extruder_definition_id(extruder_id.GetString());
                 const std::string extruder_file = findDefinitionFile(extruder_definition_id, search_directories);
-                loadJSON(extruder_file, scene.extruders[extruder_nr].settings_, force_read_parent, force_read_nondefault);
+                if (extruder_file.empty())
+                {
+                    continue; // Not found, which has been reported.
+                }
+                if (const auto error_code = loadJSON(extruder_file, scene.extruders[extruder_nr].settings_, force_read_parent, force_read_nondefault); error_code != 0)
+                {
+                    return error_code;
+                }
             }
         }
     }
-- 
2.43.0


From 6fdcb459b4d96465ed13a85d70d86f23ec7772b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 16/43] fix: fail to load an STL file that cannot be opened,
 measured or read completely

---
 src/MeshGroup.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 00590a7..2ef5dcf 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -148,6 +148,10 @@ void MeshGroup::scaleFromBottom(const Ratio factor_xy, const Ratio factor_z)
 bool loadMeshSTL_ascii(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
 {
     FILE* f = fopen(filename.string().c_str(), "rt");
+    if (f == nullptr)
+    {
+        return false;
+    }
     char buffer[1024];
     Point3F vertex;
     int n = 0;
@@ -173,7 +177,13 @@ bool loadMeshSTL_ascii(Mesh* mesh, const fs::path& filename, const Matrix4x3D& m
             }
         }
     }
+    const bool read_error = ferror(f) != 0;
     fclose(f);
+    if (read_error)
+    {
+        spdlog::error("Could not read all of STL file: {}", filename.string());
+        return false;
+    }
     mesh->finish();
     return true;
 }
@@ -181,10 +191,22 @@ bool loadMeshSTL_ascii(Mesh* mesh, const fs::path& filename, const Matrix4x3D& m
 bool loadMeshSTL_binary(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix, const std::vector<Point2F>* uv_coordinates = nullptr)
 {
     FILE* f = fopen(filename.string().c_str(), "rb");
+    if (f == nullptr)
+    {
+        return false;
+    }
 
-    fseek(f, 0L, SEEK_END);
+    if (fseek(f, 0L, SEEK_END) != 0)
+    {
+        fclose(f);
+        return false;
+    }
     long long file_size = ftell(f); // The file size is the position of the cursor after seeking to the end.
-    rewind(f); // Seek back to start.
+    if (file_size < static_cast<long long>(80 + sizeof(uint32_t)) || fseek(f, 0L, SEEK_SET) != 0) // Seek back to start.
+    {
+        fclose(f);
+        return false;
+    }
     size_t face_count = (file_size - 80 - sizeof(uint32_t)) / 50; // Subtract the size of the header. Every face uses exactly 50 bytes.
 
     char buffer[80];
@@ -274,7 +296,11 @@ bool loadMeshSTL(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
             return false;
         }
     }
-    fseek(f, num_whitespace, SEEK_SET); // Seek to the place after all whitespace (we may have just read too far).
+    if (fseek(f, num_whitespace, SEEK_SET) != 0) // Seek to the place after all whitespace (we may have just read too far).
+    {
+        fclose(f);
+        return false;
+    }
 
     char buffer[6];
     if (fread(buffer, 5, 1, f) != 1)
@@ -485,7 +511,11 @@ bool loadMeshSTL_with_uv(Mesh* mesh, const fs::path& filename, const Matrix4x3D&
             return false;
         }
     }
-    fseek(f, num_whitespace, SEEK_SET); // Seek to the place after all whitespace (we may have just read too far).
+    if (fseek(f, num_whitespace, SEEK_SET) != 0) // Seek to the place after all whitespace (we may have just read too far).
+    {
+        fclose(f);
+        return false;
+    }
 
     char buffer[6];
     if (fread(buffer, 5, 1, f) != 1)
-- 
2.43.0


From 1322d07f136981a9c0223528e0528d3968ac1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 17/43] fix: don't stop reading a text STL file at a long line

---
 src/MeshGroup.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 2ef5dcf..4c84b68 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -38,15 +38,19 @@ namespace cura
 /* Custom fgets function to support Mac line-ends in Ascii STL files. OpenSCAD produces this when used on Mac */
 void* fgets_(char* ptr, size_t len, FILE* f)
 {
-    while (len && fread(ptr, 1, 1, f) > 0)
+    size_t length = 0;
+    char character;
+    while (fread(&character, 1, 1, f) > 0)
     {
-        if (*ptr == '\n' || *ptr == '\r')
+        if (character == '\n' || character == '\r')
         {
-            *ptr = '\0';
+            ptr[length] = '\0';
             return ptr;
         }
-        ptr++;
-        len--;
+        if (length + 1 < len) // Drop the rest of lines that are too long for the buffer, such as the one with the name of the solid.
+        {
+            ptr[length++] = character;
+        }
     }
     return nullptr;
 }
-- 
2.43.0


From dce017dab430d7d500d55e5422e6f89b670b8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 18/43] fix: fail to load an OBJ file that cannot be read
 completely

---
 src/MeshGroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 4c84b68..b060236 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -438,6 +438,12 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
         }
     }
 
+    if (file.bad())
+    {
+        spdlog::error("Could not read all of OBJ file: {}", filename.string());
+        return false;
+    }
+
     mesh->finish();
     return ! mesh->faces_.empty();
 }
-- 
2.43.0


From e6017656694d03b19afd995650c03f9628010032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 19/43] fix: read all vertices and texture coordinates of OBJ
 files

---
 src/MeshGroup.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index b060236..dfef687 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -345,10 +345,10 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     std::vector<Point3LL> vertices;
     std::vector<Point2F> uv_coordinates;
     std::string line;
-    std::regex main_regex(R"((v|vt|f)\s+(.*))");
+    std::regex main_regex(R"(\s*(v|vt|f)\s+(.*?)\s*)"); // Ignoring white space around it, which includes the carriage returns of files written on Windows.
     const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
-    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern);
-    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")");
+    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // Optionally a weight or color.
+    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // Optionally a depth.
     std::regex face_indices_regex(R"((\d+)(?:\/(\d*))?(?:\/(?:\d*))?)");
 
     auto get_uv_coordinates = [&uv_coordinates](std::optional<size_t> uv_index) -> std::optional<Point2F>
-- 
2.43.0


From 30d086e433cae805333de2101c416ee4a73d7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 20/43] fix: understand negative indices in OBJ files

---
 src/MeshGroup.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index dfef687..87f84be 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -349,7 +349,14 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
     std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // Optionally a weight or color.
     std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // Optionally a depth.
-    std::regex face_indices_regex(R"((\d+)(?:\/(\d*))?(?:\/(?:\d*))?)");
+    std::regex face_indices_regex(R"((-?\d+)(?:\/(-?\d+)?)?(?:\/(?:-?\d+)?)?)");
+
+    // Indices start at 1. Negative indices count back from the last element so far.
+    auto get_index = [](const std::string& text, const size_t count) -> size_t
+    {
+        const long long index = std::stoll(text);
+        return index < 0 ? count + index : index - 1;
+    };
 
     auto get_uv_coordinates = [&uv_coordinates](std::optional<size_t> uv_index) -> std::optional<Point2F>
     {
@@ -404,10 +411,10 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
                 if (vertex_match.size() >= 2)
                 {
                     Vertex vertex;
-                    vertex.index = std::stoul(vertex_match[1].str()) - 1;
+                    vertex.index = get_index(vertex_match[1].str(), vertices.size());
                     if (vertex_match[2].matched && vertex_match[2].length() > 0)
                     {
-                        vertex.uv_index = std::stoul(vertex_match[2].str()) - 1;
+                        vertex.uv_index = get_index(vertex_match[2].str(), uv_coordinates.size());
                     }
                     vertex_indices.push_back(vertex);
                 }
-- 
2.43.0


From e9a8fc41b57504f27c51edf27a53adbd4e6be064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 21/43] fix: look for the texture coordinates next to the model

---
 src/MeshGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 87f84be..986c195 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -568,7 +568,7 @@ bool loadMeshIntoMeshGroup(MeshGroup* meshgroup, const fs::path& filename, const
     if (extension == "stl")
     {
         // Check for corresponding UV and PNG files
-        const fs::path uv_filename = fs::path(base_filename + ".uv");
+        const fs::path uv_filename = fs::path(filename).replace_extension("uv");
 
         std::vector<Point2F> uv_coordinates;
         has_uv = loadUVCoordinatesFromFile(uv_filename, uv_coordinates);
-- 
2.43.0


From b82d19240e95286a2e1b1f8758d9bd4ba89b67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 22/43] fix: read text STL files that are written in upper case

---
 src/MeshGroup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 986c195..0928e3d 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -162,7 +162,8 @@ bool loadMeshSTL_ascii(Mesh* mesh, const fs::path& filename, const Matrix4x3D& m
     Point3LL v0(0, 0, 0), v1(0, 0, 0), v2(0, 0, 0);
     while (fgets_(buffer, sizeof(buffer), f))
     {
-        if (sscanf(buffer, " vertex %f %f %f", &vertex.x_, &vertex.y_, &vertex.z_) == 3)
+        char keyword[7];
+        if (sscanf(buffer, " %6s %f %f %f", keyword, &vertex.x_, &vertex.y_, &vertex.z_) == 4 && stringcasecompare(keyword, "vertex") == 0)
         {
             n++;
             switch (n)
-- 
2.43.0


From 1d4292cbd20ae63002da8790cfa052be20f236bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 23/43] fix: read OBJ files with very long lines

---
 src/MeshGroup.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 0928e3d..a0b881a 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -346,7 +346,7 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     std::vector<Point3LL> vertices;
     std::vector<Point2F> uv_coordinates;
     std::string line;
-    std::regex main_regex(R"(\s*(v|vt|f)\s+(.*?)\s*)"); // Ignoring white space around it, which includes the carriage returns of files written on Windows.
+    constexpr std::string_view white_space(" \t\r\f\v"); // Which includes the carriage returns of files written on Windows.
     const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
     std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // Optionally a weight or color.
     std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // Optionally a depth.
@@ -372,14 +372,18 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     {
         std::smatch matches;
 
-        if (! std::regex_match(line, matches, main_regex))
+        // Split the line without a regular expression, since matching one against a long line, such as a polygon with many vertices, takes a call for each character.
+        const size_t identifier_start = line.find_first_not_of(white_space);
+        const size_t identifier_end = line.find_first_of(white_space, identifier_start);
+        const size_t payload_start = line.find_first_not_of(white_space, identifier_end);
+        if (payload_start == std::string::npos)
         {
             // Unrecognized line, just skip
             continue;
         }
 
-        const std::string line_identifier = matches[1].str();
-        const std::string payload = matches[2].str();
+        const std::string line_identifier = line.substr(identifier_start, identifier_end - identifier_start);
+        const std::string payload = line.substr(payload_start, line.find_last_not_of(white_space) + 1 - payload_start);
 
         if (line_identifier == "v" && std::regex_match(payload, matches, vertex_regex))
         {
-- 
2.43.0


From 97c1b9f9043b090b551dbc40afd72090da596efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 24/43] fix: do not use a density image that could not be read
 completely

---
 src/infill/ImageBasedDensityProvider.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/infill/ImageBasedDensityProvider.cpp b/src/infill/ImageBasedDensityProvider.cpp
index 66e53fc..2362027 100644
--- a/src/infill/ImageBasedDensityProvider.cpp
+++ b/src/infill/ImageBasedDensityProvider.cpp
@@ -5,6 +5,8 @@
 #define STB_IMAGE_IMPLEMENTATION // needed in order to enable the implementation of libs/std_image.h
 #include "infill/ImageBasedDensityProvider.h"
 
+#include <cstdio>
+
 #include <stb_image.h>
 
 #include <spdlog/spdlog.h>
@@ -22,18 +24,29 @@ ImageBasedDensityProvider::ImageBasedDensityProvider(const std::string filename,
 {
     int desired_channel_count = 0; // keep original amount of channels
     int img_x, img_y, img_z; // stbi requires pointer to int rather than to coord_t
-    image = stbi_load(filename.c_str(), &img_x, &img_y, &img_z, desired_channel_count);
-    image_size = Point3LL(img_x, img_y, img_z);
-    if (! image)
+    FILE* file = std::fopen(filename.c_str(), "rb");
+    bool read_error = false;
+    if (file)
+    {
+        image = stbi_load_from_file(file, &img_x, &img_y, &img_z, desired_channel_count);
+        read_error = std::ferror(file) != 0; // STB takes this for the end of the file, and leaves the rest of the image black.
+        std::fclose(file);
+    }
+    if (! image || read_error)
     {
         const char* reason = "[unknown reason]";
-        if (stbi_failure_reason())
+        if (! file || read_error)
+        {
+            reason = "Unable to read file";
+        }
+        else if (stbi_failure_reason())
         {
             reason = stbi_failure_reason();
         }
         spdlog::error("Cannot load image {}: {}", filename, reason);
         std::exit(-1);
     }
+    image_size = Point3LL(img_x, img_y, img_z);
     { // compute aabb
         Point2LL middle = model_aabb.getMiddle();
         Point2LL model_aabb_size = model_aabb.max_ - model_aabb.min_;
-- 
2.43.0


From 20608e7d22c94d84d25105ae7dda61a3f89fa53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 25/43] fix: look up pixels at negative texture coordinates at
 the edge of the texture

---
 include/mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mesh.h b/include/mesh.h
index 85619ec..f7e6485 100644
--- a/include/mesh.h
+++ b/include/mesh.h
@@ -103,8 +103,9 @@ public:
 
     std::pair<size_t, size_t> getPixelCoordinates(const Point2F& uv_coordinates) const
     {
-        return { std::clamp(static_cast<size_t>(uv_coordinates.x_ * width_), static_cast<size_t>(0), width_ - 1),
-                 std::clamp(static_cast<size_t>(uv_coordinates.y_ * height_), static_cast<size_t>(0), height_ - 1) };
+        // Negative coordinates are clamped first, since they can't be converted to an unsigned number.
+        return { std::min(static_cast<size_t>(std::max(uv_coordinates.x_, 0.0f) * width_), width_ - 1),
+                 std::min(static_cast<size_t>(std::max(uv_coordinates.y_, 0.0f) * height_), height_ - 1) };
     }
 
     uint32_t getPixel(const Point2F& uv_coordinates) const
-- 
2.43.0


From db1cb3c92b070dbbf618d27cbb8fb86b71d438b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 26/43] fix: ignore limits to the extruder just beyond the last
 one in slice requests

---
 src/communication/ArcusCommunication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/communication/ArcusCommunication.cpp b/src/communication/ArcusCommunication.cpp
index 2c38b0b..57771cc 100644
--- a/src/communication/ArcusCommunication.cpp
+++ b/src/communication/ArcusCommunication.cpp
@@ -522,7 +522,7 @@ void ArcusCommunication::sliceNext()
     for (const cura::proto::SettingExtruder& setting_extruder : slice_message->limit_to_extruder())
     {
         const int32_t extruder_nr = setting_extruder.extruder(); // Cast from proto::int to int32_t!
-        if (extruder_nr < 0 || extruder_nr > static_cast<int32_t>(extruder_count))
+        if (extruder_nr < 0 || extruder_nr >= static_cast<int32_t>(extruder_count))
         {
             // If it's -1 it should be ignored as per the spec. Let's also ignore it if it's beyond range.
             continue;
-- 
2.43.0


From 1dd32edf573442181f459c4589c46e1aa45d1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 27/43] fix: finalize all groups of models given on the command
 line, not only the last

---
 src/communication/CommandLine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index d241385..fd618aa 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -486,7 +486,10 @@ void CommandLine::sliceNext()
     try
     {
 #endif // DEBUG
-        slice->scene.mesh_groups[mesh_group_index].finalize();
+        for (MeshGroup& mesh_group : slice->scene.mesh_groups)
+        {
+            mesh_group.finalize();
+        }
         spdlog::info("Loaded from disk in {:3}s\n", FffProcessor::getInstance()->time_keeper.restart());
 
         // Start slicing.
-- 
2.43.0


From ec0ff8832a96a0d9dfa628f2f0b3635f6ffc4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 28/43] fix: do not print empty groups after the last group of
 a slice request

---
 src/communication/ArcusCommunication.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/communication/ArcusCommunication.cpp b/src/communication/ArcusCommunication.cpp
index 57771cc..dd9f0cc 100644
--- a/src/communication/ArcusCommunication.cpp
+++ b/src/communication/ArcusCommunication.cpp
@@ -537,6 +537,10 @@ void ArcusCommunication::sliceNext()
     {
         private_data->readMeshGroupMessage(mesh_group_message);
     }
+    if (private_data->object_count > 0)
+    {
+        slice->scene.mesh_groups.resize(private_data->object_count); // Groups without objects have been skipped.
+    }
     spdlog::debug("Done reading Slice message.");
 
     if (! slice->scene.mesh_groups.empty())
-- 
2.43.0


From 2d33c5ebb0221acefacbba6237d46e73be922576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 29/43] fix: send the layers to the front-end also when one of
 the groups has nothing to print

---
 src/Scene.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Scene.cpp b/src/Scene.cpp
index 246adb1..deca36e 100644
--- a/src/Scene.cpp
+++ b/src/Scene.cpp
@@ -81,6 +81,7 @@ void Scene::processMeshGroup(MeshGroup& mesh_group)
     if (empty)
     {
         Progress::messageProgress(Progress::Stage::FINISH, 1, 1); // 100% on this meshgroup
+        Application::getInstance().communication_->sendOptimizedLayerData(); // This group has no layers, but the layers of all groups are sent after the last of them.
         spdlog::info("Total time elapsed {:03.3f}s", time_keeper_total.restart());
         return;
     }
@@ -88,6 +89,7 @@ void Scene::processMeshGroup(MeshGroup& mesh_group)
     SliceDataStorage storage;
     if (! fff_processor->polygon_generator.generateAreas(storage, &mesh_group, fff_processor->time_keeper))
     {
+        Application::getInstance().communication_->sendOptimizedLayerData();
         return;
     }
 
-- 
2.43.0


From c11b033af675d5e8066758940d52b3714e347ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 30/43] fix: show the moves between objects in the first layer
 of the next object

---
 src/communication/ArcusCommunication.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/communication/ArcusCommunication.cpp b/src/communication/ArcusCommunication.cpp
index dd9f0cc..7b978ce 100644
--- a/src/communication/ArcusCommunication.cpp
+++ b/src/communication/ArcusCommunication.cpp
@@ -364,6 +364,7 @@ void ArcusCommunication::sendLineTo(const PrintFeatureType& type, const Point3LL
 void ArcusCommunication::sendOptimizedLayerData()
 {
     path_compiler->flushPathSegments(); // Make sure the last path segment has been flushed from the compiler.
+    path_compiler->setLayer(0); // The moves towards the next object belong to its first layer.
 
     SliceDataStruct<proto::LayerOptimized>& data = private_data->optimized_layers;
     data.sliced_objects++;
-- 
2.43.0


From c7cd52ffe8aabda46bf5ddb26f572808750de850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 31/43] fix: send the progress of a group that has nothing to
 print

---
 src/communication/ArcusCommunication.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/communication/ArcusCommunication.cpp b/src/communication/ArcusCommunication.cpp
index 7b978ce..39cf294 100644
--- a/src/communication/ArcusCommunication.cpp
+++ b/src/communication/ArcusCommunication.cpp
@@ -445,15 +445,14 @@ void ArcusCommunication::sendPrintInformation(const std::vector<cura::Duration>&
 
 void ArcusCommunication::sendProgress(double progress) const
 {
-    const int rounded_amount = 1000 * progress;
+    const double progress_all_objects = (private_data->optimized_layers.sliced_objects + progress) / private_data->object_count;
+    const int rounded_amount = 1000 * progress_all_objects;
     if (private_data->last_sent_progress == rounded_amount) // No need to send another tiny update step.
     {
         return;
     }
 
     std::shared_ptr<proto::Progress> message = std::make_shared<cura::proto::Progress>();
-    double progress_all_objects = progress / private_data->object_count;
-    progress_all_objects += private_data->optimized_layers.sliced_objects * (1.0 / private_data->object_count);
     message->set_amount(progress_all_objects);
     private_data->socket->sendMessage(message);
 
-- 
2.43.0


From 0a0f060b140642986830275c41b9060dbb4693b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 32/43] fix: guard reads of the collision cache with the
 collision cache's mutex

getCollision looked areas up while holding the mutex of the avoidance cache,
but calculateCollision inserts them while holding critical_collision_cache_.
Collisions that are calculated on demand from several threads were read while
the map was being rehashed.
---
 src/TreeModelVolumes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 920ef52..4a7d8fa 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -346,7 +346,7 @@ const Shape& TreeModelVolumes::getCollision(coord_t radius, LayerIndex layer_idx
     RadiusLayerPair key{ radius, layer_idx };
 
     {
-        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_avoidance_cache_);
+        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_collision_cache_);
         result = getArea(collision_cache_, key);
     }
     if (result)
-- 
2.43.0


From a8ffd6551db0eec55db988490b0effe83e57dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 33/43] fix: calculate collisions on demand from several
 threads

When another thread had calculated the requested radius further up since the
cache was looked at, the range of layers to calculate started above its end,
and the loop over it ran for ever or off the end of the model. Between both
insertions a thread that needs placeable areas found the collision but no
placeable areas and asked for them in an endless recursion. The number of
calculated layers is now read once, what is there already is not calculated
again, and placeable areas are inserted first.
---
 src/TreeModelVolumes.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 4a7d8fa..b838dda 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -621,6 +621,16 @@ void TreeModelVolumes::calculateCollision(const std::deque<RadiusLayerPair>& key
         {
             const coord_t radius = keys[i].first;
             RadiusLayerPair key(radius, 0);
+            LayerIndex max_calculated_layer;
+            {
+                std::lock_guard<std::mutex> critical_section(*critical_collision_cache_);
+                max_calculated_layer = getMaxCalculatedLayer(radius, collision_cache_);
+            }
+            if (max_calculated_layer >= keys[i].second)
+            {
+                spdlog::debug("Requested calculation for value already calculated ?");
+                return;
+            }
             std::unordered_map<RadiusLayerPair, Shape> data_outer;
             std::unordered_map<RadiusLayerPair, Shape> data_placeable_outer;
             for (const auto outline_idx : ranges::views::iota(0UL, layer_outlines_.size()))
@@ -640,12 +650,7 @@ void TreeModelVolumes::calculateCollision(const std::deque<RadiusLayerPair>& key
                 // be added at request time. Avoiding this would require saving each collision for each outline_idx separately,
                 //   and later for each avoidance... But avoidance calculation has to be for the whole scene and can NOT be done for each outline_idx separately and combined later.
                 // So avoiding this inaccuracy seems infeasible as it would require 2x the avoidance calculations => 0.5x the performance.
-                coord_t min_layer_bottom;
-                {
-                    std::lock_guard<std::mutex> critical_section(*critical_collision_cache_);
-                    min_layer_bottom = getMaxCalculatedLayer(radius, collision_cache_) - z_distance_bottom_layers;
-                }
-
+                coord_t min_layer_bottom = max_calculated_layer - z_distance_bottom_layers;
                 if (min_layer_bottom < 0)
                 {
                     min_layer_bottom = 0;
@@ -755,10 +760,7 @@ void TreeModelVolumes::calculateCollision(const std::deque<RadiusLayerPair>& key
                 }
             }
 
-            {
-                std::lock_guard<std::mutex> critical_section(*critical_collision_cache_);
-                collision_cache_.insert(data_outer.begin(), data_outer.end());
-            }
+            // The placeable areas have to be there before the collision is, as whoever finds the latter expects not to have to calculate the former.
             if (radius == 0)
             {
                 {
@@ -766,6 +768,10 @@ void TreeModelVolumes::calculateCollision(const std::deque<RadiusLayerPair>& key
                     placeable_areas_cache_.insert(data_placeable_outer.begin(), data_placeable_outer.end());
                 }
             }
+            {
+                std::lock_guard<std::mutex> critical_section(*critical_collision_cache_);
+                collision_cache_.insert(data_outer.begin(), data_outer.end());
+            }
         });
 }
 
-- 
2.43.0


From a9163e36497537c798ccb217ec678ab3eb085f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 34/43] fix: calculate wall restrictions on demand from several
 threads

The restrictions for the minimal distance were inserted after those from which
the number of calculated layers is taken. A thread that asked in between, or
that had looked before another one calculated further up, started above the end
of the range it had to calculate and never got out of the loop.
---
 src/TreeModelVolumes.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index b838dda..8594df6 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -1227,6 +1227,11 @@ void TreeModelVolumes::calculateWallRestrictions(const std::deque<RadiusLayerPai
                 min_layer_bottom = getMaxCalculatedLayer(radius, wall_restrictions_cache_);
             }
 
+            if (min_layer_bottom >= keys[key_idx].second)
+            {
+                spdlog::debug("Requested calculation for value already calculated ?");
+                return;
+            }
             if (min_layer_bottom < 1)
             {
                 min_layer_bottom = 1;
@@ -1245,14 +1250,15 @@ void TreeModelVolumes::calculateWallRestrictions(const std::deque<RadiusLayerPai
                 }
             }
 
+            // The number of calculated layers is taken from the last one that is filled.
             {
-                std::lock_guard<std::mutex> critical_section(*critical_wall_restrictions_cache_);
-                wall_restrictions_cache_.insert(data.begin(), data.end());
+                std::lock_guard<std::mutex> critical_section(*critical_wall_restrictions_cache_min_);
+                wall_restrictions_cache_min_.insert(data_min.begin(), data_min.end());
             }
 
             {
-                std::lock_guard<std::mutex> critical_section(*critical_wall_restrictions_cache_min_);
-                wall_restrictions_cache_min_.insert(data_min.begin(), data_min.end());
+                std::lock_guard<std::mutex> critical_section(*critical_wall_restrictions_cache_);
+                wall_restrictions_cache_.insert(data.begin(), data.end());
             }
         });
 }
-- 
2.43.0


From a8a4307cd23135709d21a942d91d72fe85effe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 35/43] fix: do not read an uninitialised flag when a branch
 cannot be placed

---
 src/TreeSupport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeSupport.cpp b/src/TreeSupport.cpp
index aebbc3c..697e004 100644
--- a/src/TreeSupport.cpp
+++ b/src/TreeSupport.cpp
@@ -1520,7 +1520,7 @@ bool TreeSupport::setToModelContact(std::vector<TreeSupportElementSet>& move_bou
             }
             else
             {
-                bool found_partial_placement;
+                bool found_partial_placement = false;
                 for (coord_t radius_offset : { -config.getCollisionRadius(first_elem),
                                                -config.getCollisionRadius(first_elem) / 2,
                                                coord_t(0) }) // Interestingly the first radius is working most of the time, even though it seems like it shouldn't.
-- 
2.43.0


From 5449ede2f9bb30d84104c1aff17652eedbcf8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 36/43] fix: don't retract and prime along with the last move
 once the filament is primed

---
 src/LayerPlan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index a717a5f..5affe15 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3741,6 +3741,10 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
                 {
                     // We need to unretract before the last travel move of the path if the next path is an outer wall.
                     gcode.writeUnretractionAndPrime();
+
+                    // The filament is primed already, so don't retract or prime along with the last move.
+                    travel_retraction_state = TravelRetractionState::None;
+                    priming_amounts.reset();
                 }
                 if (! path.points.empty())
                 {
-- 
2.43.0


From 6c7a0da6043c49e910cb82f17ec2d3d2a91d6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 37/43] fix: go all the way down at the end of a z-hop that is
 split for priming

---
 src/gcode_export/gcodeExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index d82113d..4ebd6d3 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1371,7 +1371,7 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         }
 
         writeZhop(speed, height, prime_distance);
-        current_position_.z_ = current_layer_z_;
+        current_position_.z_ = current_layer_z_ + is_z_hopped_;
     }
 }
 
-- 
2.43.0


From 06fa3ff17fc3fe14e0147aad0d5b42d10af8c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 38/43] fix: keep the heights of the first layers when empty
 ones below are removed

---
 src/FffPolygonGenerator.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/FffPolygonGenerator.cpp b/src/FffPolygonGenerator.cpp
index 78c73a1..99d1c5c 100644
--- a/src/FffPolygonGenerator.cpp
+++ b/src/FffPolygonGenerator.cpp
@@ -785,20 +785,11 @@ bool FffPolygonGenerator::isEmptyLayer(SliceDataStorage& storage, const LayerInd
 void FffPolygonGenerator::removeEmptyFirstLayers(SliceDataStorage& storage, size_t& total_layers)
 {
     size_t n_empty_first_layers = 0;
-    coord_t hightest_empty_layer = 0;
     for (size_t layer_idx = 0; layer_idx < total_layers; layer_idx++)
     {
         if (isEmptyLayer(storage, layer_idx))
         {
             n_empty_first_layers++;
-
-            coord_t layer_highest_z = 0;
-            for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
-            {
-                const auto& mesh = *mesh_ptr;
-                layer_highest_z = layer_idx >= mesh.layers.size() ? layer_highest_z : std::max(layer_highest_z, mesh.layers[layer_idx].printZ);
-            }
-            hightest_empty_layer = std::max(hightest_empty_layer, layer_highest_z);
         }
         else
         {
@@ -809,20 +800,32 @@ void FffPolygonGenerator::removeEmptyFirstLayers(SliceDataStorage& storage, size
     if (n_empty_first_layers > 0)
     {
         spdlog::info("Removing {} layers because they are empty", n_empty_first_layers);
-        const coord_t layer_height = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<coord_t>("layer_height");
         for (auto& mesh_ptr : storage.meshes)
         {
             auto& mesh = *mesh_ptr;
             std::vector<SliceLayer>& layers = mesh.layers;
+            coord_t removed_height = 0;
+            coord_t initial_layer_z = 0;
             if (layers.size() > n_empty_first_layers)
             {
+                // The new initial layer replaces the old one, so the thickness of the old one stays in the print.
+                for (size_t layer_idx = 1; layer_idx <= n_empty_first_layers; layer_idx++)
+                {
+                    removed_height += layers[layer_idx].thickness;
+                }
+                initial_layer_z = layers[0].printZ;
+
                 // transfer initial layer thickness to new initial layer
                 layers[n_empty_first_layers].thickness = layers[0].thickness;
             }
             layers.erase(layers.begin(), layers.begin() + n_empty_first_layers);
             for (SliceLayer& layer : layers)
             {
-                layer.printZ -= hightest_empty_layer;
+                layer.printZ -= removed_height;
+            }
+            if (! layers.empty())
+            {
+                layers.front().printZ = initial_layer_z; // On a raft, the initial layer doesn't have the same offset as the others.
             }
             mesh.layer_nr_max_filled_layer -= n_empty_first_layers;
         }
-- 
2.43.0


From a17cdd5b4058cc3abdbf1d714d965eb3e658a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 39/43] fix: end the process when an exception leaves a task,
 whichever thread runs it

An exception in the main thread's share of a parallel loop or pipeline unwound
its stack, and with it the state that the worker threads were still using: the
engine crashed or hung instead of ending with an error.
---
 include/utils/ThreadPool.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index 5bba0eb..05f3847 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -55,9 +55,12 @@ public:
      * \brief Pushes a new task while the queue is locked.
      * \param func Closure that unlocks the local worker's lock passed as an argument while
      * doing asynchronous work.
+     *
+     * Tasks commonly refer to the stack of the thread that pushes them. If pushing fails while some of them are pending
+     * already, this stack must not be unwound: the process ends instead.
      */
     template<typename F>
-    void push(const lock_t& lock [[maybe_unused]], F&& func)
+    void push(const lock_t& lock [[maybe_unused]], F&& func) noexcept
     {
         assert(lock);
         tasks.push_back(std::forward<F>(func));
@@ -66,9 +69,12 @@ public:
     /*!
      * \brief Executes pending tasks while the predicates returns true
      * This method doesn't wait unless predicate does (like implementation of ThreadPool::worker())
+     *
+     * An exception that leaves a task ends the process, whichever thread runs the task: other threads may still be using
+     * what would be unwound.
      */
     template<typename P>
-    void work_while(lock_t& lock, P predicate)
+    void work_while(lock_t& lock, P predicate) noexcept
     {
         assert(lock);
         while (predicate() && ! tasks.empty()) // Order is important: predicate() might wait on an empty queue
@@ -374,8 +380,8 @@ protected:
         consumer_wait_idx_ = read_idx_; // The producer filling this slot will resume consumption
     }
 
-    //! Task pushed on the ThreadPool
-    void worker(lock_t& lock)
+    //! Task pushed on the ThreadPool. Other workers may still use this object when an exception occurs, hence it ends the process
+    void worker(lock_t& lock) noexcept
     {
         while (wait(lock)) // While there is work to do
         {
-- 
2.43.0


From 6af8fc70c886899ea8692e90923e1c3cf0149086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 40/43] fix: don't refer to a part of the support after adding
 parts to the same list

With a brim inside support that splits an area into three or more, the
first one was read after the vector that contained it had been moved.
---
 src/sliceDataStorage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sliceDataStorage.cpp b/src/sliceDataStorage.cpp
index e2f57a3..435920a 100644
--- a/src/sliceDataStorage.cpp
+++ b/src/sliceDataStorage.cpp
@@ -797,11 +797,14 @@ void SupportLayer::excludeAreasFromSupportInfillAreas(const Shape& exclude_polyg
         // the rest we add to the support_infill_parts (but after part_count_to_check)
         support_infill_part.outline_ = smaller_support_islands[0];
 
+        // Adding parts may move the one that is being replaced, so don't refer to it from here on
+        const coord_t support_line_width = support_infill_part.support_line_width_;
+        const bool use_fractional_config = support_infill_part.use_fractional_config_;
+        const coord_t inset_width_to_generate = support_infill_part.inset_width_to_generate_;
         for (size_t support_island_idx = 1; support_island_idx < smaller_support_islands.size(); ++support_island_idx)
         {
             const SingleShape& smaller_island = smaller_support_islands[support_island_idx];
-            support_infill_parts
-                .emplace_back(smaller_island, support_infill_part.support_line_width_, support_infill_part.use_fractional_config_, support_infill_part.inset_width_to_generate_);
+            support_infill_parts.emplace_back(smaller_island, support_line_width, use_fractional_config, inset_width_to_generate);
         }
     }
 
-- 
2.43.0


From 62038d460db2767b9f32b4b5448ce4752f54660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 41/43] fix: nothing is left to be primed by the z-hop once the
 filament is primed

---
 src/gcode_export/gcodeExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 4ebd6d3..d826195 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1231,6 +1231,7 @@ void GCodeExport::writeUnretractionAndPrime()
             PrintFeatureType::StationaryRetractUnretract);
     }
     extruder_attr_[current_extruder_].prime_volume_ = 0.0;
+    z_hop_prime_leftover_.reset(); // Everything is primed now, so nothing is left for the end of the z-hop.
 
     if (getCurrentExtrudedVolume() > 10000.0 && flavor_ != EGCodeFlavor::BFB
         && flavor_ != EGCodeFlavor::MAKERBOT) // According to https://github.com/Ultimaker/CuraEngine/issues/14 having more then 21m of extrusion causes inaccuracies. So reset it
-- 
2.43.0


From d4eb8a916bb157b252b42b95811639d227ecb9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 42/43] fix: ignore texture metadata that is not an object of
 bit ranges

The description of a painted texture was used without checking what it
is: anything but an object was read as one (a crash), and ranges that are
not two integers within a pixel's 32 bits, in order, led to undefined
shifts.
---
 src/utils/MeshUtils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/MeshUtils.cpp b/src/utils/MeshUtils.cpp
index 969358b..a636b70 100644
--- a/src/utils/MeshUtils.cpp
+++ b/src/utils/MeshUtils.cpp
@@ -187,13 +187,19 @@ bool loadTextureFromPngData(const std::vector<unsigned char>& texture_data, Mesh
                 return false;
             }
 
+            if (! json_document.IsObject())
+            {
+                spdlog::warn("Ignoring texture metadata in {}: not an object", source_description);
+                return false;
+            }
+
             // Parse the paint feature manifest
             for (auto it = json_document.MemberBegin(); it != json_document.MemberEnd(); ++it)
             {
                 std::string feature_name = it->name.GetString();
 
                 const rapidjson::Value& array = it->value;
-                if (array.IsArray() && array.Size() == 2)
+                if (array.IsArray() && array.Size() == 2 && array[0].IsUint() && array[1].IsUint() && array[0].GetUint() <= array[1].GetUint() && array[1].GetUint() < 32)
                 {
                     (*texture_data_mapping)[feature_name] = TextureBitField{ array[0].GetUint(), array[1].GetUint() };
                 }
-- 
2.43.0


From 982c96a8eed3cc440cd4d779bfa9bfb0de5eb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 43/43] fix: start the print with the first mesh group that has
 something to print

---
 include/Scene.h                  | 8 ++++++++
 src/FffGcodeWriter.cpp           | 6 +++---
 src/LayerPlanBuffer.cpp          | 2 +-
 src/Scene.cpp                    | 1 +
 src/gcode_export/gcodeExport.cpp | 4 ++--
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/Scene.h b/include/Scene.h
index 7542910..1e2c07d 100644
--- a/include/Scene.h
+++ b/include/Scene.h
@@ -47,6 +47,14 @@ public:
      */
     std::vector<MeshGroup>::iterator current_mesh_group;
 
+    /*
+     * \brief Whether no mesh group has been printed before the current one.
+     *
+     * The print is started with the first mesh group that is printed. That isn't
+     * the first one of the scene if that one has nothing to print.
+     */
+    bool is_first_printed_mesh_group{ true };
+
     /*
      * \brief Create an empty scene.
      *
diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index 1fa4244..246d219 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -66,7 +66,7 @@ void FffGcodeWriter::writeGCode(SliceDataStorage& storage, TimeKeeper& time_keep
     gcode.setSliceUUID(slice_uuid);
 
     Scene& scene = Application::getInstance().current_slice_->scene;
-    if (scene.current_mesh_group == scene.mesh_groups.begin()) // First mesh group.
+    if (scene.is_first_printed_mesh_group) // First mesh group.
     {
         gcode.resetTotalPrintTimeAndFilament();
         gcode.setInitialAndBuildVolumeTemps(start_extruder_nr);
@@ -76,7 +76,7 @@ void FffGcodeWriter::writeGCode(SliceDataStorage& storage, TimeKeeper& time_keep
 
     setConfigRetractionAndWipe(storage);
 
-    if (scene.current_mesh_group == scene.mesh_groups.begin())
+    if (scene.is_first_printed_mesh_group)
     {
         auto should_prime_extruder = gcode.initializeExtruderTrains(storage, start_extruder_nr);
 
@@ -1546,7 +1546,7 @@ void FffGcodeWriter::calculateExtruderOrderPerLayer(const SliceDataStorage& stor
     // set the initial extruder of this meshgroup
     Scene& scene = Application::getInstance().current_slice_->scene;
     size_t start_extruder;
-    if (scene.current_mesh_group == scene.mesh_groups.begin())
+    if (scene.is_first_printed_mesh_group)
     { // first meshgroup
         start_extruder = getStartExtruder(storage);
     }
diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index 5bf6bb5..cc997bb 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -622,7 +622,7 @@ void LayerPlanBuffer::insertTempCommands()
             for (size_t extruder_idx = 0; extruder_idx < scene.extruders.size(); extruder_idx++)
             { // set temperature of the first nozzle, turn other nozzles down
                 const Settings& other_extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_idx].settings_;
-                if (scene.current_mesh_group == scene.mesh_groups.begin()) // First mesh group.
+                if (scene.is_first_printed_mesh_group) // First mesh group.
                 {
                     // override values from GCodeExport::setInitialTemps
                     // the first used extruder should be set to the required temp in the start gcode
diff --git a/src/Scene.cpp b/src/Scene.cpp
index deca36e..721a6d5 100644
--- a/src/Scene.cpp
+++ b/src/Scene.cpp
@@ -95,6 +95,7 @@ void Scene::processMeshGroup(MeshGroup& mesh_group)
 
     Progress::messageProgressStage(Progress::Stage::EXPORT, &fff_processor->time_keeper);
     fff_processor->gcode_writer.writeGCode(storage, fff_processor->time_keeper);
+    is_first_printed_mesh_group = false;
 
     Progress::messageProgress(Progress::Stage::FINISH, 1, 1); // 100% on this meshgroup
     Application::getInstance().communication_->sendOptimizedLayerData();
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index d826195..c2ecf14 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -138,7 +138,7 @@ void GCodeExport::preSetup(const size_t start_extruder)
 
     estimate_calculator_.setFirmwareDefaults(mesh_group->settings);
 
-    if (mesh_group == scene.mesh_groups.begin())
+    if (scene.is_first_printed_mesh_group)
     {
         if (! scene.current_mesh_group->settings.get<bool>("material_bed_temp_prepend"))
         {
@@ -795,7 +795,7 @@ void GCodeExport::processInitialLayerExtrudersTemperatures(const SliceDataStorag
     const bool material_print_temp_prepend = scene.current_mesh_group->settings.get<bool>("material_print_temp_prepend");
     const bool material_print_temp_wait = scene.current_mesh_group->settings.get<bool>("material_print_temp_wait");
 
-    if (! material_print_temp_prepend && (scene.current_mesh_group == scene.mesh_groups.begin()))
+    if (! material_print_temp_prepend && scene.is_first_printed_mesh_group)
     {
         // Nozzle initial temperatures are handled by start GCode, ignore
         return;
-- 
2.43.0

