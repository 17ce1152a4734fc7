#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace se = ffcl::search;
namespace bf = ffcl::search::buffer;
using Tree = ds::KDTree<IIt, SIt>;
using UF   = ds::UnionFind<std::size_t>;
using Srch = se::Searcher<Tree>;
template class ffcl::search::Searcher<Tree>;
template class ffcl::search::TreeTraverser<Tree>;
template <class B> void w_buffer(B& b, Srch& s, SIt a, SIt e, IIt i, IIt j) {
    b.update(1, D(2)); b.partial_search(i, j, a, e, std::size_t(2)); b.size(); b.max_capacity(); b.remaining_capacity(); b.empty(); b.closest_index(); b.closest_distance(); b.furthest_index(); b.furthest_distance(); b.furthest_distance(0);
    b.indices(); b.distances(); b.indices_const_ref(); b.distances_const_ref(); std::move(b).move_indices(); std::move(b).move_distances(); b.centroid_begin(); b.centroid_end();
    s(std::move(b));
}
void w_buffers(SIt a, SIt e, IIt i, IIt j, Srch& s, UF& uf, std::unordered_set<std::size_t>& vis) {
    bf::Unsorted u1(a, e); bf::Unsorted u2(a, e, std::size_t(3)); w_buffer(u2, s, a, e, i, j);
    bf::Unsorted u3(ds::bounds::BallView<SIt>(a, e, D(1))); w_buffer(u3, s, a, e, i, j);
    bf::WithMemory<SIt> m1(a, e); bf::WithMemory<SIt> m2(a, e, vis, std::size_t(3)); w_buffer(m2, s, a, e, i, j);
    bf::WithMemory<SIt> m3(a, e, std::unordered_set<std::size_t>(), std::size_t(3)); bf::WithMemory<SIt> m4(a, e, vis.begin(), vis.end(), std::size_t(3));
    bf::WithUnionFind w1(a, e, uf, std::size_t(1), std::size_t(3)); w_buffer(w1, s, a, e, i, j);
    std::vector<bf::Unsorted<SIt>> batch; s(std::move(batch));
    s.n_samples(); s.n_features(); s.begin(); s.end(); s.cbegin(); s.cend(); s.features_range_first(0); s.features_range_last(0);
}
void w_dual(Srch& s, Tree& t, UF& uf) {
    s.dual_tree_shortest_edge(t, std::size_t(1)); s.dual_tree_shortest_edge(t, uf, std::size_t(0), std::size_t(1));
    s.dual_tree_shortest_edge_with_core_distances(t, std::size_t(1));
    s.dual_tree_shortest_edge(std::move(t), std::size_t(1));
}
void w_closest(IIt i, IIt j, SIt a, SIt e, UF& uf) {
    se::algorithms::simple_dual_set_shortest_edge(i, j, a, e, 2, i, j, a, e, 2);
    se::algorithms::dual_set_shortest_edge(i, j, a, e, 2, i, j, a, e, 2, std::size_t(1));
    se::algorithms::dual_set_shortest_distance(i, j, a, e, 2, i, j, a, e, 2, std::size_t(1));
    se::algorithms::sequential_dual_set_shortest_edge(i, j, a, e, 2, i, j, a, e, 2, uf, 0);
}
