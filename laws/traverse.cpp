#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace se = ffcl::search;
namespace bf = ffcl::search::buffer;
using Tree = ds::KDTree<IIt, SIt>;
using Node = Tree::NodeType;
using Ptr  = Tree::NodePtr;
using TT   = se::TreeTraverser<Tree>;
using Srch = se::Searcher<Tree>;
using U    = bf::Unsorted<SIt>;
template <class... T> Ptr ufp(T...);
//@ descend
bool law_N03_descend(const TT& t, const Ptr& n, U& b) {
    if (!n) return true;
    ghost(b) = 0;
    const auto s = t.reference_indexer_.begin(), e = t.reference_indexer_.end(); const auto d = t.reference_indexer_.n_features();
    const auto here = uf(5, n->begin(), n->end(), s, e, d);
    const auto r = t.recursive_search_to_leaf_node(n, b);
    if (n->is_leaf()) return ghost(b) == here && r == n;
    const auto c = ufp(12, n, s, e, d, b.centroid_begin(), b.centroid_end());
    return ghost(b) == here + uf(6, c) && r == ufp(6, c);
}
//@ ascend
bool law_N03_ascend(const TT& t, const Ptr& n, U& b) {
    if (!n) return true;
    ghost(b) = 0;
    const auto s = t.reference_indexer_.begin(), e = t.reference_indexer_.end(); const auto d = t.reference_indexer_.n_features();
    const auto c = ufp(13, n, s, e, d, ghost(b));
    const auto r = t.get_parent_node_after_sibling_traversal(n, b);
    return ghost(b) == (c ? uf(8, c) : 0) && r == n->parent_.lock();
}
//@ traverse
bool law_N03_traverse(const TT& t, const Ptr& n, U& b) {
    ghost(b) = 0;
    t.single_tree_traversal(n, b);
    D g = uf(6, n);
    auto c = ufp(6, n);
    while (c != n) { g += uf(9, c); c = ufp(9, c); }
    return ghost(b) == g;
}
//@ search
bool law_N03_search(const Srch& t, U& b) {
    ghost(b) = 0;
    const U r = t(std::move(b));
    return ghost(r) == uf(8, t.tree_traverser_.reference_indexer_.root_);
}
//@ search_batch
bool law_N03_search_batch(const Srch& t, std::vector<U>& b, std::size_t i) {
    if (!(i < b.size())) return true;
    for (auto& x : b) ghost(x) = 0;
    const auto n = b.size();
    const auto r = t(std::move(b));
    return r.size() == n && ghost(r[i]) == uf(8, t.tree_traverser_.reference_indexer_.root_);
}
//@ searcher
bool law_N03_searcher(Tree& u, std::size_t i) {
    const auto r = u.root_; const auto s = u.samples_range_first_; const auto e = u.samples_range_last_; const auto d = u.n_features_;
    const auto same = [&](const Srch& t) { return t.begin() == s && t.end() == e && t.cbegin() == s && t.cend() == e && t.n_features() == d && t.features_range_first(i) == s + i * d && t.features_range_last(i) == s + i * d + d && t.tree_traverser_.reference_indexer_.root_ == r && t.n_samples() == u.n_samples(); };
    const Srch a(u);
    const bool ok = same(a);
    const Srch c(std::move(u));
    return ok && c.begin() == s && c.end() == e && c.n_features() == d && c.tree_traverser_.reference_indexer_.root_ == r;
}
//@ traverser
bool law_N03_search_traverser(const TT& t, U& b) {
    ghost(b) = 0;
    const U r = t(std::move(b));
    return ghost(r) == uf(8, t.reference_indexer_.root_);
}
//@ traverser_batch
bool law_N03_search_traverser_batch(const TT& t, std::vector<U>& b, std::size_t i) {
    if (!(i < b.size())) return true;
    for (auto& x : b) ghost(x) = 0;
    const auto n = b.size();
    const auto r = t(std::move(b));
    return r.size() == n && ghost(r[i]) == uf(8, t.reference_indexer_.root_);
}
