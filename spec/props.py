"""the properties: one place for properties.jsonl and MANIFEST.json"""
LAW = ("static: gated value numbering of the type-checked program (calls expanded from the current source), value numbers normalised and "
       "decided by normal forms, difference bounds and random interpretation; nothing is executed")
NOTE = ("Sound modulo the listed assumptions (real arithmetic, no aliasing of distinct arguments, modelled standard library). An obligation the "
        "analysis cannot normalise is reported as undecided in the evidence, never as a violation.")


def q(over, text):
    return {"over": over if isinstance(over, list) else [over], "text": text}


def anch(files, mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d


I = "include/ffcl/"
PROPS = [
 dict(id="M01", title="Distance functions compute their metric over every feature",
      statement="Each vector distance (Euclidean, squared Euclidean, Manhattan for signed and for unsigned coordinates, cosine similarity, edit distance) and each distance "
                "from the origin equals its textbook formula taken over all coordinates of the operands, each coordinate used exactly once. The distance "
                "chosen by coordinate type is Euclidean for floating point and Manhattan for integers, symmetric and zero between a point and itself.",
      quantifier=q("inputs", "every pair of points of every dimension, for signed, unsigned and floating coordinates where the function admits them"),
      why_tests_cant="Tests compare a few distances of small fixed dimension; a term dropped or double counted only for some dimension or sign escapes them.",
      anchors=anch([I + "common/math/heuristics/Distances.hpp"], [("distance loops", I + "common/math/heuristics/Distances.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="B01", title="Bounding volumes: membership, centroid, furthest distance and segments are exact",
      statement="For every ball, axis-aligned box and segment representation, membership, length, centroid, diameter and distance to the furthest "
                "point of the bound equal their geometric definition, whether the bound owns or views its data. Moving one end of a "
                "segment leaves the other end where it was.",
      quantifier=q("inputs", "every bound of every dimension and every point of that dimension"),
      why_tests_cant="Tests build a handful of bounds with convenient (integer, symmetric) extents; truncation or a wrong end only shows on others.",
      anchors=anch([I + "datastruct/bounds/AABB.hpp", I + "datastruct/bounds/AABBWithCentroid.hpp", I + "datastruct/bounds/Ball.hpp", I + "datastruct/bounds/UnboundedBall.hpp",
                    I + "datastruct/bounds/segment/LowerBoundAndLength.hpp", I + "datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"],
                   [("bound queries", I + "datastruct/bounds"), ("segments", I + "datastruct/bounds/segment")]),
      technique=LAW, note=NOTE),
 dict(id="B02", title="Lower bounds on distances to a bounding volume are exact",
      statement="The minimum distance reported between a point and a box or ball, and between two boxes or balls, equals the Euclidean distance between the closest pair "
                "of points of the two, and is zero when they overlap.",
      quantifier=q("inputs", "every pair of bounds/points of every dimension"),
      why_tests_cant="A lower bound that is too large on some side of a box prunes true neighbours only for particular layouts.",
      anchors=anch([I + "datastruct/bounds/distances/MinDistance.hpp", I + "datastruct/bounds/segment/distances/MinDistance.hpp"],
                   [("min distance", I + "datastruct/bounds/distances/MinDistance.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="B03", title="Tight bounds enclose exactly the data they were built from",
      statement="The bounding box, or the per-dimension extent, computed for a range of samples has in every dimension the minimum and the maximum of that coordinate over all "
                "and only the samples of the range, directly or through an index range.",
      quantifier=q("inputs", "every dataset, index range and dimension"),
      why_tests_cant="Whether the first or last sample of a range is skipped depends on where the extreme value lies.",
      anchors=anch([I + "datastruct/Interval.hpp"], [("tight bounds", I + "datastruct/Interval.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="S01", title="Descriptive statistics equal their definitions",
      statement="Per-feature means, variances and the feature of largest variance, over all rows or an index range of them, for all columns or a mask of them, equal their definitions "
                "over exactly the rows and columns asked for.  Extrema and their positions, the second largest and the n-th smallest value with their positions, element-wise "
                "minima and the two normalisations of a range do too, and leave the data as it was.",
      quantifier=q("inputs", "every dataset shape, feature mask and sample content"),
      why_tests_cant="Tests use a few matrices; strides and masks go wrong only for particular combinations of shape and mask.",
      anchors=anch([I + "common/math/statistics/Statistics.hpp"], [("column and row loops", I + "common/math/statistics/Statistics.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="A01", title="Numeric and range helpers satisfy their contracts",
      statement="The absolute value, comparison with tolerance, guarded division, centre of a range, element-wise type conversion, range comparison, match counting, membership, "
                "sample-count, permutation, row remapping, translation and matrix transposition helpers return what their names say for all arguments they admit. "
                "Permutation and remapping reject operands whose sizes do not match, and only those.",
      quantifier=q("inputs", "every argument combination"),
      why_tests_cant="Helper contracts are exercised only at the values higher-level tests happen to produce.",
      anchors=anch([I + "common/Utils.hpp"], [("helpers", I + "common/Utils.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="P01", title="Pairwise distance matrices and feature containers return what was put in",
      statement="A pairwise distance matrix, precomputed or on demand, built from a range or a tuple, has one row and one column per sample, and its entry (i, j) is the "
                "distance between samples i and j, symmetric and zero on the diagonal. A feature vector or feature mask has the length and the elements it was "
                "given, and a write to one element changes that element only.",
      quantifier=q("inputs", "every dataset, dimension and pair of indices"),
      why_tests_cant="A packed triangular index can be wrong for only some (row, column) pairs or matrix sizes.",
      anchors=anch([I + "datastruct/matrix/PairwiseDistanceMatrix.hpp", I + "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp",
                    I + "datastruct/vector/FeaturesVector.hpp", I + "datastruct/vector/FeaturesMask.hpp"],
                   [("packed symmetric index", I + "datastruct/matrix/PairwiseDistanceMatrix.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="H01", title="Silhouette scores equal cohesion and separation per sample",
      statement="For every labelling, a sample's cohesion is its mean distance to the other samples with its label, its separation is the smallest mean distance to the "
                "samples of another non-empty cluster, and its silhouette is (separation - cohesion) / max(separation, cohesion), zero for a sample alone in its cluster.  "
                "The average silhouette is the mean over all samples.",
      quantifier=q("inputs", "every dataset, labelling (empty and singleton clusters included) and sample"),
      why_tests_cant="Tests use a few well separated labellings; empty clusters, singletons and ties are where the definition goes wrong.",
      anchors=anch([I + "common/math/heuristics/SilhouetteMethod.hpp"], [("cohesion, separation", I + "common/math/heuristics/SilhouetteMethod.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="R01", title="Random selection yields members of the population, distinct where promised",
      statement="Every random draw stays inside the interval it was asked for; a random selection has the requested length (at most the population), each selected element or sample row "
                "is one of the population, positions drawn without replacement are pairwise distinct, and every remaining element can be drawn. "
                "Uniform initial centroids lie inside the per-feature range of the data.",
      quantifier=q("inputs", "every population, selection size and sequence of random numbers"),
      why_tests_cant="A draw outside the range, or an element that can never be drawn, only shows for particular random sequences or sign of the data.",
      anchors=anch([I + "common/math/random/Sampling.hpp", I + "common/math/random/Distributions.hpp", I + "common/math/random/VosesAliasMethod.hpp"],
                   [("partial shuffle", I + "common/math/random/Sampling.hpp"), ("distributions", I + "common/math/random/Distributions.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="K01", title="k-means assignment: nearest centroid, second distance, sizes and sums",
      statement="For every dataset and set of centroids, each sample's assigned cluster is the index of a centroid at minimum distance and the reported nearest distance is that minimum; the "
                "reported second distance is the smallest distance to any other centroid.  Cluster sizes count exactly the samples assigned to each cluster, per-cluster position sums add exactly "
                "those samples, and the distances returned for new samples are, row by row, the distances to every centroid.",
      quantifier=q("inputs", "every dataset, dimension, number of centroids and labelling, ties and empty clusters included"),
      why_tests_cant="Tests run whole fits on a few data files; a wrong tie, a skipped centroid or a miscounted empty cluster leaves those results plausible.",
      anchors=anch([I + "kmeans/KMeansUtils.hpp", I + "kmeans/KMeans.hpp"], [("assignment helpers", I + "kmeans/KMeansUtils.hpp"), ("predict and forward", I + "kmeans/KMeans.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="K02", title="A Lloyd iteration moves each centroid to the mean of its samples",
      statement="One iteration of Lloyd's algorithm replaces each centroid that has assigned samples by the mean of exactly those samples, leaves a centroid without samples where it was, "
                "and then reassigns every sample to its nearest centroid; its loss is then the sum of the samples' distances to those.",
      quantifier=q("inputs", "every dataset, number of centroids and starting assignment, empty clusters included"),
      why_tests_cant="Empty clusters and single-sample clusters need particular starting centroids that the test files do not produce.",
      anchors=anch([I + "kmeans/Lloyd.hpp", I + "kmeans/KMeansUtils.hpp"], [("step", I + "kmeans/Lloyd.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="K03", title="Hamerly's bookkeeping stays consistent with the centroids it describes",
      statement="In Hamerly's algorithm the new centroids are the per-cluster sums divided by the cluster sizes, centroid velocities are the distances moved, the per-sample upper bound grows by the velocity of the "
                "sample's own centroid and the lower bound shrinks by the largest velocity of the others, and the inter-centroid distance is the distance to the closest other centroid.  A sample "
                "whose bounds do not decide is reassigned to its truly nearest centroid, and sizes and sums then move with it and with nothing else.",
      quantifier=q("inputs", "every dataset and every state of bounds, sizes and sums"),
      why_tests_cant="A bound that is slightly too tight changes assignments only for rare geometric configurations.",
      anchors=anch([I + "kmeans/Hamerly.hpp", I + "kmeans/KMeansUtils.hpp"], [("bounds and reassignment", I + "kmeans/Hamerly.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="K04", title="k-means++ centroids are rows of the dataset, weighted by distance",
      statement="Every centroid produced by k-means++ initialisation is, in all its coordinates, a row of the dataset, one row per requested centroid.  Centroids that were already chosen are kept unchanged, and each further one is drawn with weights that are the distances of the samples to the nearest centroid chosen so far (to the last one chosen, in the variant that only looks at the previous centroid).",
      quantifier=q("inputs", "every dataset, number of centroids, previous centroids and sequence of random numbers"),
      why_tests_cant="Random initialisation is sampled a few times; a mixed-up stride only shows for some dimensions.",
      anchors=anch([I + "kmeans/KMeansPlusPlus.hpp"], [("initialisation", I + "kmeans/KMeansPlusPlus.hpp")]),
      technique=LAW + "; the weighted sampler is replaced by its contract", note=NOTE),
 dict(id="N01", title="A bounded neighbour buffer keeps the closest candidates offered",
      statement="Offering a candidate to a neighbour buffer adds it while there is room, replaces the furthest kept neighbour when the buffer is full and the candidate is strictly closer, and otherwise changes nothing.  "
                "Each kept index stays paired with its own distance, and the reported closest and furthest neighbours are the extremes of what is kept.",
      quantifier=q(["inputs", "histories"], "every capacity, buffer content and candidate"),
      why_tests_cant="Tests compare final neighbour sets on random data; a stale cached extreme needs a particular arrival order.",
      anchors=anch([I + "search/buffer/StaticBuffer.hpp", I + "search/buffer/Unsorted.hpp"], [("update", I + "search/buffer/StaticBuffer.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="N02", title="Scanning a range offers every admissible candidate and no other",
      statement="Scanning a range of sample indices offers to the buffer, with its true distance to the query, each index whose sample lies within the search bound and that is not excluded (already visited, or in the query's own component), "
                "exactly once, and offers nothing else.",
      quantifier=q("inputs", "every index range, dataset, query, bound, visited set and component structure"),
      why_tests_cant="A dropped or duplicated candidate only matters when it happens to be one of the k nearest.",
      anchors=anch([I + "search/buffer/Unsorted.hpp", I + "search/buffer/WithMemory.hpp", I + "search/buffer/WithUnionFind.hpp"], [("partial search", I + "search/buffer")]),
      technique=LAW + "; acceptance by the buffer is the contract decided by N01", note=NOTE),
 dict(id="D01", title="Medoid tables: nearest, second and third nearest medoid of every sample",
      statement="For every dataset (or precomputed distance matrix) and set of medoids, the reported nearest medoid of a sample is at minimum distance, the second nearest is at the smallest distance among the others and the third "
                "among the rest, with matching distances, ties included; prediction returns the nearest medoid and its distance.  Medoid coordinates are exact copies of the "
                "medoid rows, and the initial single medoid minimises the total distance to all samples.",
      quantifier=q("inputs", "every dataset, distance matrix, medoid set and sample, ties included"),
      why_tests_cant="A tie or a medoid met in an unlucky order yields a table entry that is plausible but not the k-th nearest.",
      anchors=anch([I + "kmedoids/PAMUtils.hpp", I + "kmedoids/KMedoids.hpp"], [("nearest medoid tables", I + "kmedoids/PAMUtils.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="D02", title="FasterPAM: swap gains are exact and cached tables match the medoids",
      statement="The change in total deviation reported for the best swap of a candidate equals the change actually caused by it, and no other medoid swapped for that candidate would do better.  "
                "After a swap the cached nearest and second nearest medoid of every sample, their distances and the total deviation equal what they would be if recomputed from the new medoids; removal losses equal the sum "
                "over the removed medoid's samples.  The tables a new optimiser starts from are exact too, and a step tries, in sample order, every sample that is not its own cluster's medoid and makes exactly the swaps that reduce the deviation.",
      quantifier=q(["inputs", "histories"], "every distance matrix, medoid set, candidate and swapped medoid"),
      why_tests_cant="A stale cache entry only matters on later swaps and only for samples whose first or second medoid was the one replaced.",
      anchors=anch([I + "kmedoids/FasterPAM.hpp", I + "kmedoids/PAMUtils.hpp"], [("find_best_swap, swap_buffers", I + "kmedoids/FasterPAM.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="D03", title="FasterMSC: silhouette gains are exact and cached tables match the medoids",
      statement="A medoid-silhouette optimiser starts with the three nearest medoids of every sample, their distances and the loss: the sum over all samples of nearest over second nearest distance.  The best swap it reports for a candidate has the gain (or, with two medoids, the loss) that swapping would cause, and no other medoid would do better; "
                "after a swap, tables and loss equal what recomputing them from the new medoids would give.  A step tries, in sample order, every sample that is not its own cluster's medoid and makes exactly the improving swaps, keeping the resulting loss.",
      quantifier=q(["inputs", "histories"], "every dataset or distance matrix, medoid set, candidate and swapped medoid, with two medoids or more; the best swap for every state of the cached tables"),
      why_tests_cant="Which of a sample's three cached medoids is replaced, and ties between them, give over a dozen update cases per sample; a stale entry only shows on later swaps as a slightly worse clustering.",
      anchors=anch([I + "kmedoids/FasterMSC.hpp", I + "kmedoids/PAMUtils.hpp"], [("find_best_swap, swap_buffers, step and their two-medoid variants", I + "kmedoids/FasterMSC.hpp")]),
      technique=LAW + "; in the step laws the search and the swap are contracts, decided by the other laws", note=NOTE),
 dict(id="U01", title="The disjoint-set structure keeps exactly the sets its merges imply",
      statement="A fresh disjoint-set structure puts every element alone in its own set, and one made from given labels starts from exactly those labels.  Asking for the set of an element always returns the representative of its set (an element that represents itself) and moves no element to another set.  "
                "Merging two elements returns one of the two former representatives, after which exactly the members of the two sets are represented by it and no other element is re-attached; the set of higher rank wins and a rank grows, by one, only on a tie.",
      quantifier=q(["inputs", "histories"], "every number of elements, every state reachable by merges and queries, every pair of elements"),
      why_tests_cant="A link to the wrong representative only shows for particular merge orders, and then only as a slightly wrong clustering.",
      anchors=anch([I + "datastruct/UnionFind.hpp"], [("find and merge", I + "datastruct/UnionFind.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="T01", title="A kd-tree partitions its samples: every index is in exactly one node range",
      statement="Building a kd-tree node makes it a leaf exactly when the maximum depth is reached or at most a bucket of samples is left; otherwise its own range (the pivot), its left child's and its right child's ranges are "
                "consecutive, disjoint and together the whole range, children are one level deeper, know their parent, and their bound is the parent's bound cut at the pivot's coordinate on the cut axis.  "
                "The root covers the whole index range with the tight bound of its samples, options are the ones given, and copies and moves of a tree describe the same tree.",
      quantifier=q("inputs", "every dataset, index range, bucket size, maximum depth and axis/splitting policy"),
      why_tests_cant="A lost or doubled sample, or a bound cut on the wrong side, only shows in queries whose answer lies in the affected range.",
      anchors=anch([I + "datastruct/tree/kdtree/KDTree.hpp", I + "datastruct/tree/kdtree/KDTreeAlgorithms.hpp"], [("build", I + "datastruct/tree/kdtree/KDTree.hpp"), ("median split", I + "datastruct/tree/kdtree/KDTreeAlgorithms.hpp")]),
      technique=LAW + "; recursion by structural induction (recursive calls replaced by what is being shown)", note=NOTE),
 dict(id="T02", title="kd-tree navigation: axis choice, closest child, sibling pruning and accessors",
      statement="The maximum-spread policy cuts the widest axis of the bound (within the feature mask when one is given) and the cycling policy cycles through the features or the mask by depth.  A query descends to the left child exactly when its coordinate on the cut axis is "
                "below the pivot's, and the sibling is skipped only when the buffer has no room left and the cut plane is at least as far as its furthest neighbour.  Node and tree accessors (ranges, sizes, leaf and parent flags, sample rows) describe the stored data.",
      quantifier=q("inputs", "every bound, mask, depth, node, query and buffer content"),
      why_tests_cant="Over-eager pruning loses a neighbour only for queries next to a cut plane; a wrong axis only slows the search or unbalances the tree.",
      anchors=anch([I + "datastruct/tree/kdtree/KDTreeAlgorithms.hpp", I + "datastruct/tree/kdtree/KDNodeView.hpp", I + "datastruct/tree/kdtree/policy"], [("axis selection", I + "datastruct/tree/kdtree/policy"), ("child and sibling selection", I + "datastruct/tree/kdtree/KDNodeView.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="N03", title="A tree search visits every node that pruning does not exclude, from the root",
      statement="Descending scans the range of every node on the path to the leaf it returns; going up from a node scans the whole subtree of the sibling that pruning kept and returns the parent; a traversal repeats this until the starting node is reached again.  "
                "A search starts at the root of the tree, for one buffer or a batch of them (each handled independently and returned in order), and a searcher describes exactly the tree it was made from.",
      quantifier=q("inputs", "every tree, query buffer and batch of buffers"),
      why_tests_cant="A subtree that is not visited only matters for the queries whose neighbours lie there.",
      anchors=anch([I + "search/TreeTraverser.hpp", I + "search/Search.hpp"], [("single-tree traversal", I + "search/TreeTraverser.hpp"), ("search entry points", I + "search/Search.hpp")]),
      technique=LAW + "; recursion by structural induction; node scanning and pruning replaced by the contracts decided by N02 and T02", note=NOTE),
 dict(id="C01", title="Cutting a single-linkage tree labels every sample from the right ancestor",
      statement="Flat labels of a single-linkage tree have one entry per sample; each sample gets the label of the lowest of its ancestors (itself included) whose level reaches the cut level: that ancestor's representative, or noise (0) when it holds fewer samples than the minimum cluster size, and "
                "the root's representative when no ancestor does.  The cut level and minimum size are the ones set, with defaults of no cut and size one.",
      quantifier=q("inputs", "every tree, cut level and minimum cluster size"),
      why_tests_cant="Tests compare label counts for a few cuts; boundary levels and sizes exactly at the minimum are not sampled.",
      anchors=anch([I + "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"], [("flat extraction", I + "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")]),
      technique=LAW + "; recursion by structural induction", note=NOTE),
 dict(id="C02", title="Condensing keeps splits with two large sides and accumulates their mass",
      statement="While condensing, a split whose two sides both reach the minimum cluster size ends the current cluster and opens one child cluster per side; a split with one such side continues the same cluster with it; a split with none ends the cluster.  "
                "The samples that leave a cluster at a split add (their number) times (the inverse of the split level minus the inverse of the level at which the cluster appeared) to its stability, and a cluster that ends without children is a selected leaf.",
      quantifier=q("inputs", "every single-linkage tree and minimum cluster size"),
      why_tests_cant="Clusters exactly at the minimum size and one-sided splits need particular hierarchies, and a wrong stability often leaves the labels unchanged.",
      anchors=anch([I + "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", I + "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"], [("condense", I + "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"), ("excess of mass", I + "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp")]),
      technique=LAW + "; recursion by structural induction", note=NOTE),
 dict(id="C03", title="Cluster selection is by stability and labels are 1..n with 0 for noise",
      statement="A condensed cluster is selected unless its children's accumulated stability is strictly larger than its own, in which case the larger value is passed up; the flat clustering takes the shallowest selected clusters, labels them 1, 2, ... and gives each sample under one of them its label, all others 0.  "
                "When leaves are requested no stability selection happens; the root cluster is never selected unless a single cluster is allowed or it has no children; options are the ones set.",
      quantifier=q("inputs", "every condensed tree and option setting"),
      why_tests_cant="Ties between a cluster and its children and nested selections need particular hierarchies.",
      anchors=anch([I + "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"], [("selection and labelling", I + "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp")]),
      technique=LAW + "; recursion by structural induction", note=NOTE),
 dict(id="G01", title="Boruvka's forest: components, edges and merges stay consistent",
      statement="The forest starts with every sample in its own component and no edge; merging along an edge between different components records that edge once, joins their members in the disjoint sets and in the component lists, drops exactly the absorbed component, and an edge inside a component changes nothing.  "
                "Each step proposes for every component the strictly smallest edge from its members to their nearest sample outside (mutual-reachability weight when core distances are used), and with two components left only the smaller one is scanned.  "
                "Sorting a spanning tree orders it by increasing weight, loses no edge, and the copying variant leaves its input alone; a spanning tree is complete when one component is left, and uses core distances exactly when more than one neighbour is configured.",
      quantifier=q(["inputs", "histories"], "every dataset, forest state and edge"),
      why_tests_cant="Tests check the number of edges and total weight on a few datasets; a component list that drifts from the disjoint sets only matters in later rounds.",
      anchors=anch([I + "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", I + "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"], [("forest and steps", I + "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"), ("sorting", I + "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp")]),
      technique=LAW + "; the nearest-outside search is a contract (N01-N03)", note=NOTE),
 dict(id="G02", title="Core distances are each sample's k-th nearest neighbour distance",
      statement="The core distance recorded for each sample is the furthest distance of its own k-nearest-neighbour search, one entry per sample in sample order, where k is the configured number of neighbours (3 by default), and copying or setting options keeps it.",
      quantifier=q("inputs", "every dataset and number of neighbours"),
      why_tests_cant="A shifted or missing entry changes mutual reachability distances only slightly.",
      anchors=anch([I + "datastruct/graph/spanning_tree/CoreDistances.hpp", I + "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"], [("core distances", I + "datastruct/graph/spanning_tree/CoreDistances.hpp")]),
      technique=LAW + "; the search is a contract (N01-N03)", note=NOTE),
 dict(id="L01", title="DBSCAN: density clusters are grown from core samples; the rest is noise",
      statement="A sample starts a new cluster exactly when it has not been visited yet and more samples than the configured minimum lie in the ball of the configured radius around it; clusters are numbered 1, 2, ... in that order and every other sample "
                "keeps label 0.  Growing a cluster visits every sample reached, continues through the neighbours of exactly those that are dense themselves, and gives its label to every sample reached that has none, whether or not it had been met as noise before.  One label is returned per sample, and the options are the ones set (5 samples and radius 0.1 by default).",
      quantifier=q("inputs", "every dataset, radius, minimum number of samples and neighbourhood structure"),
      why_tests_cant="Tests only look at the clustering of a few files; border samples, exact minimum densities and clusters that touch need particular data.",
      anchors=anch([I + "dbscan/DBSCAN.hpp"], [("predict and cluster growth", I + "dbscan/DBSCAN.hpp")]),
      technique=LAW + "; the radius search is a contract (N01-N03)", note=NOTE),
 dict(id="L02", title="HDBSCAN runs the configured pipeline and returns its labels",
      statement="HDBSCAN builds the spanning tree of its data with the configured number of neighbours, links all its edges, condenses the result with the configured minimum cluster size and returns the flat labels of that condensed tree, "
                "selecting clusters by stability exactly when leaves are not requested and with the configured leaf and single-cluster settings.  Options are the ones set (1 neighbour, minimum size 5, no leaves, a single cluster allowed by default), and setting one leaves the others alone.",
      quantifier=q("inputs", "every dataset and option setting"),
      why_tests_cant="A dropped option only shows for the settings that differ from its default.",
      anchors=anch([I + "hdbscan/HDBSCAN.hpp"], [("predict and options", I + "hdbscan/HDBSCAN.hpp")]),
      technique=LAW + "; the stages are contracts (G01, C01-C03)", note=NOTE),
 dict(id="Q01", title="Sorting, selection and partitioning of index ranges",
      statement="Partitioning an index range around a pivot leaves the pivot's value at the returned position with nothing greater before it and nothing smaller after it; selecting the k-th smallest returns position k with the same guarantee around it; sorting orders "
                "the whole range by the chosen feature.  All three only permute the indices of the range, and the median of three returns the position of the median of the first, middle and last element (position 0 below three elements).",
      quantifier=q("inputs", "every index range, dataset, feature and pivot, repeated values included"),
      why_tests_cant="Tests sort a few random ranges; repeated values and pivots at the ends of a range need particular data.",
      anchors=anch([I + "common/algorithms/Sorting.hpp"], [("partition, quickselect, quicksort", I + "common/algorithms/Sorting.hpp")]),
      technique=LAW + "; recursion by structural induction", note=NOTE),
 dict(id="C04", title="A single-linkage tree joins, edge by edge, the clusters of the sorted tree",
      statement="Building a single-linkage tree sorts the edges by weight and starts with one node per sample; each edge between two different clusters makes one node whose representative is the merged cluster's, whose level is the weight of the edge, whose size is the sum of the two, "
                "whose children are their two nodes (which get it as parent), and which replaces them; an edge inside a cluster changes nothing.  The options given at construction are kept (defaults otherwise).",
      quantifier=q(["inputs", "histories"], "every spanning tree, and every state of the clusters when an edge is met"),
      why_tests_cant="Tests look at the labels of a few files; a wrong size or parent only matters for particular cuts.",
      anchors=anch([I + "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"], [("build", I + "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")]),
      technique=LAW + "; effect rule over the stores of the linking loop, the disjoint sets being a contract (U01)", note=NOTE),
 dict(id="K05", title="Fitting obeys its iteration, patience and restart settings",
      statement="Fitting k-means or k-medoids performs the configured number of refinement steps from each start; with early stopping it ends after the first step at which the last 'patience + 1' steps each left the solution unchanged (within the tolerance for centroids), never later than the limit. "
                "Given start values are the only start, otherwise the configured number of starts is drawn for the whole data set; the solution kept and returned is the final one of the start with the least final loss.  The settings are the ones given.",
      quantifier=q("inputs", "every dataset or distance matrix, every behaviour of the refinement step and its loss, every iteration limit, patience and tolerance (shown for one given start and two drawn ones)"),
      why_tests_cant="Tests fit a few files that converge long before the limits; patience, tolerance and the choice between restarts only matter for particular sequences of solutions.",
      anchors=anch([I + "kmeans/KMeans.hpp", I + "kmedoids/KMedoids.hpp"], [("k-means fit", I + "kmeans/KMeans.hpp"), ("k-medoids fit", I + "kmedoids/KMedoids.hpp")]),
      technique=LAW + "; the refinement algorithm is a template argument of fit, taken as an uninterpreted sequence", note=NOTE),
 dict(id="R02", title="Weighted sampling draws each index in proportion to its weight",
      statement="For every non-empty vector of non-negative weights with a positive sum, the table built for weighted sampling gives each index exactly its weight divided by the sum of the weights as its probability of being drawn. "
                "A draw picks a column of the table uniformly and returns that column's own index with the column's probability and its alternative otherwise; an empty vector of weights is rejected.",
      quantifier=q("inputs", "every vector of weights and every pair of uniform draws"),
      why_tests_cant="A skewed table changes frequencies only: tests of a random sampler check that results are in range, or use wide statistical tolerances on a few weights.",
      anchors=anch([I + "common/math/random/VosesAliasMethod.hpp"], [("alias table construction", I + "common/math/random/VosesAliasMethod.hpp"), ("sampling", I + "common/math/random/VosesAliasMethod.hpp")]),
      technique=LAW, note=NOTE),
 dict(id="N04", title="Closest pair of two sets: the exhaustive search is exact, the dual-tree search prunes safely",
      statement="The exhaustive search for the closest pair of two sets returns the pair at the smallest strictly positive distance below the starting edge's, and the starting edge when there is none. "
                "The dual-tree search starts at the two roots, drops a pair of nodes only when it was already met or when the distance between their bounds exceeds the query node's bound, and otherwise scans every sample of the query node against those of the reference node and "
                "goes on to every combination with the children that this rule does not drop.  The query node's bound is infinite while a query's buffer is missing or not full and otherwise derives from the nearest and furthest of the buffers' distances and the node's diameter; when one edge is kept, it is the shortest offered.",
      quantifier=q(["inputs", "histories"], "every two sets of samples, trees, state of the buffers and cost of the pairs of nodes (exhaustive search: shown for two by two samples)"),
      why_tests_cant="Tests search a few random sets; a bound that is too tight drops the true pair only for particular layouts of the two trees.",
      anchors=anch([I + "search/ClosestPairOfSamples.hpp", I + "search/TreeTraverser.hpp", I + "search/buffer/IndicesToBuffersMap.hpp"],
                   [("exhaustive search", I + "search/ClosestPairOfSamples.hpp"), ("dual-tree traversal", I + "search/TreeTraverser.hpp"), ("bounds and edges kept", I + "search/buffer/IndicesToBuffersMap.hpp")]),
      technique=LAW + "; recursive visits, costs and scans are contracts of the traversal", note=NOTE),
]
NA = []
