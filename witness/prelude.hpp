#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/common/Utils.hpp"
#include "ffcl/common/Timer.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/bounds/segment/distances/MinDistance.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp"
#include "ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/datastruct/vector/FeaturesMask.hpp"
#include "ffcl/datastruct/vector/FeaturesVector.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/KMeansUtils.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/kmedoids/PAMUtils.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/TreeTraverser.hpp"
#include "ffcl/search/DualTreeTraverser.hpp"
#include "ffcl/search/buffer/IndicesToBuffersMap.hpp"
#include "ffcl/search/buffer/StaticBuffer.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include <vector>
#ifndef DATA
#define DATA double
#endif
#ifndef SAMPLES
#define SAMPLES const_iterator
#endif
using D   = DATA;
using SIt = std::vector<D>::SAMPLES;
using IIt = std::vector<std::size_t>::iterator;
using CIt = std::vector<std::size_t>::const_iterator;
template <class... T> void use(T&&...);
template <class... T> double uf(T...);
template <class T> double& ghost(const T&);
