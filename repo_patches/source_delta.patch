From 1092bb00d589261b0fce5b97242f1a7c7727a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:49 +0000
Subject: [PATCH 01/17] fix: masked per-feature variance reads every sample,
 not only the first one

---
 include/ffcl/common/math/statistics/Statistics.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..15199b1 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,8 +315,9 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
-                              mean_per_feature[mask_index];
+            const auto temp =
+                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
     }
@@ -417,8 +418,9 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
-                              mean_per_feature[mask_index];
+            const auto temp =
+                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
     }
-- 
2.43.0


From ebc614ef7830023861b2df1edef7d4f9d150d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:49 +0000
Subject: [PATCH 02/17] fix: LowerBoundAndLength::update_lower_bound keeps the
 upper bound in place

---
 include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
index 989ec1d..d4dd9d7 100644
--- a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
+++ b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
@@ -47,6 +47,8 @@ constexpr auto LowerBoundAndLength<Value>::lower_bound_impl() const {
 
 template <typename Value>
 void LowerBoundAndLength<Value>::update_lower_bound_impl(const ValueType& new_lower_bound) {
+    // the upper bound (first + second) must not move with the lower bound
+    segment_representation_.second += segment_representation_.first - new_lower_bound;
     segment_representation_.first = new_lower_bound;
 }
 
-- 
2.43.0


From e7e74ddf2e85a98d8d87319fd7e361e56d47d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:49 +0000
Subject: [PATCH 03/17] fix: AABBWithCentroid furthest bound distance is not
 truncated to int

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..be630a2 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    auto furthest_distance = static_cast<ValueType>(0);
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From 20cfab16137ff6544edd48b0f97c7f90ceed6cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:46 +0000
Subject: [PATCH 04/17] fix: silhouette score of a sample alone in its cluster
 is zero, as documented

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..3742686 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,13 +238,18 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-        if (coh < sep) {
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            samples_silhouette_scores[sample_index] = 0;
+
+        } else if (coh < sep) {
             samples_silhouette_scores[sample_index] = static_cast<ElementType>(1) - coh / sep;
 
         } else if (coh > sep) {
-- 
2.43.0


From 79c840f3113c0cfbd5e2b4a705f0ea01dc1c72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:35 +0000
Subject: [PATCH 05/17] fix: partial shuffle draws from all remaining elements,
 not only the first n_elements

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From d64e3b5a1b3576e90f41b0356d86f360e927f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:35 +0000
Subject: [PATCH 06/17] fix: select_n_random_samples_from_indices passes the
 number of choices

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..f86327d 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From 813a2cefd9504ece16428a6b44c4257c8dd05155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:35 +0000
Subject: [PATCH 07/17] fix: init_spatial_uniform maxima start from the lowest
 value so that negative features stay in range

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index f86327d..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From a8a4ff675095778688b62aa67c730ab612b0c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:35 +0000
Subject: [PATCH 08/17] fix: CoreDistancesArray stores the size it was given

---
 include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
index 736198c..5a48c84 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
@@ -24,7 +24,7 @@ class CoreDistancesArray {
 template <typename Value>
 CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size) noexcept
   : data_{std::make_unique<Value[]>(size)}
-  , size_{size_} {}
+  , size_{size} {}
 
 template <typename Value>
 Value& CoreDistancesArray<Value>::operator[](std::size_t index) {
-- 
2.43.0


From 2e6374cc39dc4ef9a50fa4c88d0deeeaffe75f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:44 +0000
Subject: [PATCH 09/17] fix: moving a KDTree keeps its number of samples

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..520980a 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -244,6 +244,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From 8975fb4a26cfa62a783440693e5653214fc7a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:57 +0000
Subject: [PATCH 10/17] fix: a centroid without samples keeps its position in
 Lloyd's algorithm instead of moving to the origin

---
 include/ffcl/kmeans/Lloyd.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..dbeb183 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,13 +111,9 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
-            // Compute the new centroid position for the centroid that has more than 1 associated sample
+        // a centroid that has no associated sample keeps its previous position
+        if (cluster_sizes[centroid_index]) {
+            // Compute the new centroid position from its associated samples
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
                            centroids_.begin() + feature_index_start,
-- 
2.43.0


From afc1b33b5310980abeff65bfffbddf47a49260f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:17 +0000
Subject: [PATCH 11/17] fix: second nearest centroid distance counts a centroid
 tied with the nearest one

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From fd643a91fdc8af5e3b68e3a15b1cc691c06b8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:38 +0000
Subject: [PATCH 12/17] fix: a medoid tied with a nearer one counts as the
 second or third nearest medoid

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From 8f063a7e29bf46341de6bd42d0aa20cbf112572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:37 +0000
Subject: [PATCH 13/17] fix: DBSCAN left samples first visited as noise out of
 the cluster that reaches them

---
 include/ffcl/dbscan/DBSCAN.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..7d2707d 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,14 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been visited already or if they were visited but not assigned to a cluster
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&visited_indices, &predictions](const auto& inner_neighbor_index) {
+                                 return !visited_indices[inner_neighbor_index] ||
+                                        predictions[inner_neighbor_index] ==
+                                            static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From 267f12f4d4bcfa44695d17a28148d28692b51e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 14/17] fix: k-medoids steps skipped samples whose index equals
 their cluster's, instead of the medoids

The candidate was compared with the position of its medoid in the list of medoids, not with the medoid's own sample index.
---
 include/ffcl/kmedoids/FasterMSC.hpp | 2 +-
 include/ffcl/kmedoids/FasterPAM.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..31386f7 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -150,7 +150,7 @@ auto FasterMSC<SamplesIterator>::step() {
 
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (medoid_candidate_index != medoids_[samples_to_nearest_medoid_indices[medoid_candidate_index]]) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..907c457 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -140,7 +140,7 @@ auto FasterPAM<SamplesIterator>::step() {
 
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (medoid_candidate_index != medoids_[samples_to_nearest_medoid_indices[medoid_candidate_index]]) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From 4ac11e055c559bc55afa2a981f878ad6b3948412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:13 +0000
Subject: [PATCH 15/17] fix: FasterMSC replaced the third nearest medoid by a
 farther one when it was medoid 0

common::infinity<std::size_t>() is 0, so the test for a missing third medoid (there is always one with three medoids or more) held for the first medoid.
---
 include/ffcl/kmedoids/FasterMSC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 31386f7..7a86172 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -335,7 +335,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_1    = index_2;
                 distance_1 = distance_2;
                 index_2    = best_swap_index;
@@ -375,7 +375,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
@@ -419,7 +419,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_3    = best_swap_index;
                 distance_3 = distance_oc;
 
-- 
2.43.0


From c0a760a8d8b2cbb8e8874a07a1c69c04daf670fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:54 +0000
Subject: [PATCH 16/17] fix: the initial loss of FasterMSC was the sum of
 distances, not the medoid silhouette loss its steps compare with

---
 include/ffcl/kmedoids/FasterMSC.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 7a86172..b521e28 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -104,9 +104,13 @@ FasterMSC<SamplesIterator>::FasterMSC(const DatasetDescriptorType&    dataset_de
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(dataset_descriptor, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = std::inner_product(
+        buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+        buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+        buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+        static_cast<DataType>(0),
+        std::plus<>(),
+        [](const auto& nearest, const auto& second_nearest) { return common::division(nearest, second_nearest); });
 }
 
 template <typename SamplesIterator>
@@ -124,9 +128,13 @@ FasterMSC<SamplesIterator>::FasterMSC(const SecondVariantType&        pairwise_d
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(pairwise_distance_matrix, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = std::inner_product(
+        buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+        buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+        buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+        static_cast<DataType>(0),
+        std::plus<>(),
+        [](const auto& nearest, const auto& second_nearest) { return common::division(nearest, second_nearest); });
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 21751fe2b72c79d9d587d83d87449fc31333e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 17/17] fix: FasterMSC with two medoids mixed distances by
 medoid position with distances by closeness

The tables are built by closeness; the swap search and the swap read and wrote them by medoid position, and a new medoid lost its distance to the other one.
---
 include/ffcl/kmedoids/FasterMSC.hpp | 39 +++++++++++++----------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index b521e28..afb7be0 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -262,6 +262,7 @@ FasterMSC<SamplesIterator>::find_best_swap_k2(std::size_t medoid_candidate_index
     // and reassigning all objects closest to this new medoid
     DataType delta_td_xc = 0;
 
+    const auto& samples_to_nearest_medoid_indices          = buffers_ptr_->samples_to_nearest_medoid_indices_;
     const auto& samples_to_nearest_medoid_distances        = buffers_ptr_->samples_to_nearest_medoid_distances_;
     const auto& samples_to_second_nearest_medoid_distances = buffers_ptr_->samples_to_second_nearest_medoid_distances_;
 
@@ -272,12 +273,13 @@ FasterMSC<SamplesIterator>::find_best_swap_k2(std::size_t medoid_candidate_index
                 ? std::get<FirstVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index)
                 : std::get<SecondVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index);
 
-        // other_sample_to_nearest_medoid_distance
-        const auto& distance_1 = samples_to_nearest_medoid_distances[other_sample_index];
-        // other_sample_to_second_nearest_medoid_distance
-        const auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
+        // the distances by medoid position, not closeness
+        const bool  is_first_nearest = samples_to_nearest_medoid_indices[other_sample_index] == 0;
+        const auto& distance_1       = is_first_nearest ? samples_to_nearest_medoid_distances[other_sample_index]
+                                                        : samples_to_second_nearest_medoid_distances[other_sample_index];
+        const auto& distance_2       = is_first_nearest ? samples_to_second_nearest_medoid_distances[other_sample_index]
+                                                        : samples_to_nearest_medoid_distances[other_sample_index];
 
-        // We do not use the assignment here, because we stored d0/d1 by medoid position, not closeness
         delta_td_mi[0] += (distance_oc < distance_2) ? common::division(distance_oc, distance_2)
                                                      : common::division(distance_2, distance_oc);
 
@@ -479,9 +481,13 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
         // other_sample_to_second_nearest_medoid_distance
         auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
+        // other_sample_to_kept_medoid_distance
+        const auto distance_kept = (index_1 == best_swap_index) ? distance_2 : distance_1;
+
         if (other_sample_index == medoid_candidate_index) {
             index_1    = best_swap_index;
-            distance_1 = distance_2 = 0;
+            distance_1 = 0;
+            distance_2 = distance_kept;
             continue;
         }
         // candidate_to_other_distance
@@ -490,25 +496,16 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 ? std::get<FirstVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index)
                 : std::get<SecondVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index);
 
-        if (best_swap_index == 0) {
+        if (distance_oc < distance_kept) {
+            index_1    = best_swap_index;
             distance_1 = distance_oc;
-            if (distance_oc < distance_2 || (common::equality(distance_oc, distance_2) && index_1 == 0)) {
-                index_1 = 0;
-                loss += common::division(distance_oc, distance_2);
-            } else {
-                index_1 = 1;
-                loss += common::division(distance_2, distance_oc);
-            }
+            distance_2 = distance_kept;
         } else {
+            index_1    = 1 - best_swap_index;
+            distance_1 = distance_kept;
             distance_2 = distance_oc;
-            if (distance_oc < distance_1 || (common::equality(distance_oc, distance_1) && index_1 == 1)) {
-                index_1 = 1;
-                loss += common::division(distance_oc, distance_1);
-            } else {
-                index_1 = 0;
-                loss += common::division(distance_1, distance_oc);
-            }
         }
+        loss += common::division(distance_1, distance_2);
     }
     return loss;
 }
-- 
2.43.0

