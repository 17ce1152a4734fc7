#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace po = ffcl::datastruct::kdtree::policy;
namespace ka = ffcl::datastruct::kdtree::algorithms;
using Tree  = ds::KDTree<IIt, SIt>;
using Bound = Tree::BoundType;
using Node  = Tree::NodeType;
template class ffcl::datastruct::KDTree<IIt, SIt>;
template struct ffcl::datastruct::KDNodeView<IIt, Bound>;
template class po::CycleThroughAxesBuild<IIt, SIt, Bound>;
template class po::HighestVarianceBuild<IIt, SIt, Bound>;
template class po::MaximumSpreadBuild<IIt, SIt, Bound>;
template class po::QuickselectMedianRange<IIt, SIt>;
void w_tree(Tree& t, Tree::Options& o, IIt i, IIt j, SIt a, SIt b, const std::vector<std::size_t>& mask) {
    Tree t2(t); Tree t3(std::move(t)); Tree t4(i, j, a, b, 2); Tree t5(i, j, a, b, 2, o);
    t.n_samples(); t.n_features(); t.begin(); t.end(); t.cbegin(); t.cend(); t.root(); t[0]; t.features_range_first(0); t.features_range_last(0);
    t.serialize("x");
    o.bucket_size(1).max_depth(2).axis_selection_policy(po::HighestVarianceBuild<IIt, SIt>{}).splitting_rule_policy(po::QuickselectMedianRange<IIt, SIt>{});
    ka::quickselect_median(i, j, a, b, 2, 0);
    auto n = t.root();
    n->select_closest_child(a, b, 2, a, b); n->is_leaf(); n->is_empty(); n->n_samples(); n->has_parent(); n->has_children(); n->begin(); n->end(); n->diameter();
    po::CycleThroughAxesBuild<IIt, SIt>().feature_mask(mask); po::HighestVarianceBuild<IIt, SIt>().feature_mask(mask).sampling_rate(0.1); po::MaximumSpreadBuild<IIt, SIt>().feature_mask(mask);
}
