#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace ms = ffcl::datastruct::mst;
namespace se = ffcl::search;
namespace bf = ffcl::search::buffer;
namespace h  = ffcl::common::math::heuristics;
using I    = std::size_t;
using Tree = ds::KDTree<IIt, SIt>;
using Ptr  = Tree::NodePtr;
using TT   = se::TreeTraverser<Tree>;
using Srch = se::Searcher<Tree>;
using U    = bf::Unsorted<SIt>;
using Map  = bf::IndicesToBuffersMap<U, Tree, Tree>;
using Lim  = Map::BoundsLimits;
using Edge = ms::Edge<I, D>;
static bool same(const Edge& a, I i, I j, D w) { return std::get<0>(a) == i && std::get<1>(a) == j && std::get<2>(a) == w; }
//@ simple
bool law_N04_simple(CIt x, SIt s, I n, I d, CIt y, SIt t, I p, I e, I i, I j, D w) {
    const I m = 2, k = 2;
    const auto r = se::algorithms::simple_dual_set_shortest_edge(x, x + m, s, s + n * d, d, y, y + k, t, t + p * e, e, ms::make_edge(i, j, w));
    for (I a = 0; a < m; ++a)
        for (I b = 0; b < k; ++b) {
            const D z = h::auto_distance(s + x[a] * d, s + x[a] * d + d, t + y[b] * e, t + y[b] * e + e);
            if (z > 0 && z < w) { w = z; i = x[a]; j = y[b]; }
        }
    return same(r, i, j, w);
}
//@ adjusted
bool law_N04_adjusted_bound(const Lim& l, D dia) {
    const D inf = ffcl::common::infinity<D>();
    const D r = l.compute_adjusted_bound(dia);
    if (!(l.closest_limit < inf - dia)) return r == inf;
    return r == (l.furthest_limit < l.closest_limit + dia ? l.furthest_limit : l.closest_limit + dia);
}
//@ limits
bool law_N04_limits(Lim& l, D v) {
    const D c = l.closest_limit, f = l.furthest_limit;
    Lim a = l, b = l, e = l; const Lim z{};
    a.try_update_closest_limit(v); b.try_update_furthest_limit(v); e.try_update_limits(v);
    return a.closest_limit == (v < c ? v : c) && a.furthest_limit == f && b.closest_limit == c && b.furthest_limit == (v > f ? v : f) && e.closest_limit == (v < c ? v : c) && e.furthest_limit == (v > f ? v : f) &&
           z.closest_limit == ffcl::common::infinity<D>() && z.furthest_limit == 0;
}
D reach(Map& m, const Ptr& q) { return uf(70, q); }
//! N04_cost ffcl::search::buffer::IndicesToBuffersMap::query_node_furthest_bound -> reach
//@ cost
bool law_N04_cost(Map& m, const Ptr& q, const Ptr& r) {
    if (!q || !r) return true;
    const D d = ds::bounds::min_distance(q->bound_, r->bound_);
    const auto c = m.cost(q, r);
    return c.has_value() == !(uf(70, q) < d) && (!c.has_value() || *c == d);
}
//@ cost_again
bool law_N04_cost_again(Map& m, const Ptr& q, const Ptr& r, D d) {
    const auto c = m.update_cost(q, r, d);
    return c.has_value() == !(uf(70, q) < d) && (!c.has_value() || *c == d);
}
//@ leaf_bound
bool law_N04_leaf_bound(Map& m, const Ptr& q) {
    if (!q || !q->is_leaf()) return true;
    const D inf = ffcl::common::infinity<D>();
    D lo = inf, hi = 0;
    bool sane = true; // no buffer holds more than it may
    m.query_nodes_to_bounds_limits_map_.clear();
    for (auto p = q->begin(); p != q->end(); ++p) {
        const auto b = m.queries_to_buffers_map_.find(*p);
        if (b != m.queries_to_buffers_map_.end() && b->second.indices_.size() > b->second.max_capacity_) sane = false;
        if (b == m.queries_to_buffers_map_.end() || b->second.indices_.size() != b->second.max_capacity_) hi = inf;
        else { const D f = b->second.furthest_distance_; if (f < lo) lo = f; if (f > hi) hi = f; }
    }
    if (!sane) return true;
    const auto e = m.update_bounds_limits(q);
    return e->second.closest_limit == lo && e->second.furthest_limit == hi;
}
// the pair of nodes is new, its cost, and what is scanned, are contracts
bool fresh_pair(Map& m, const Ptr& q, const Ptr& r) { return uf(71, q, r) > 0; }
std::optional<D> pair_cost(Map& m, const Ptr& q, const Ptr& r) { return uf(72, q, r) > 0 ? std::optional<D>(uf(73, q, r)) : std::nullopt; }
std::optional<D> pair_cost_again(Map& m, const Ptr& q, const Ptr& r, const D& c) { return uf(74, q, r, c) > 0 ? std::optional<D>(c) : std::nullopt; }
void scan_pair(Map& m, const IIt& a, const IIt& b, const IIt& c, const IIt& e, I k) { ghost(m) += uf(75, a, b, c, e, k); }
// a combination is visited with no cost, or with its own
void visit(const TT& t, const Ptr& q, const Ptr& r, Map& m, std::optional<D> c, bool skip, I k) { ghost(m) += uf(76, q, r, k) + (c.has_value() && !skip && *c != uf(73, q, r) ? uf(77, q, r) : D(0)); }
//! N04_dual ffcl::search::buffer::IndicesToBuffersMap::emplace_nodes_combination_if_not_found -> fresh_pair
//! N04_dual ffcl::search::buffer::IndicesToBuffersMap::cost -> pair_cost
//! N04_dual ffcl::search::buffer::IndicesToBuffersMap::update_cost -> pair_cost_again
//! N04_dual ffcl::search::buffer::IndicesToBuffersMap::partial_search_for_each_query -> scan_pair
//! N04_dual_t call:ffcl::search::TreeTraverser::dual_tree_traversal -> visit
//! N04_dual_c call:ffcl::search::TreeTraverser::dual_tree_traversal_with_core_distances -> visit
D visited(const Ptr& q, const Ptr& r, std::optional<D> c, bool skip, I k) {
    D g = 0;
    if (!(uf(71, q, r) > 0)) return 0;
    if (!skip && (c.has_value() ? !(uf(74, q, r, *c) > 0) : !(uf(72, q, r) > 0))) return 0;
    g += uf(75, q->indices_range_.first, q->indices_range_.second, r->indices_range_.first, r->indices_range_.second, k);
    if (q->left_ || q->right_) g += uf(76, q->left_, r, k) + uf(76, q->right_, r, k);
    if (r->left_ || r->right_) g += (uf(72, q, r->left_) > 0 ? uf(76, q, r->left_, k) : D(0)) + (uf(72, q, r->right_) > 0 ? uf(76, q, r->right_, k) : D(0));
    return g;
}
//@ dual_t
bool law_N04_dual_t(const TT& t, const Ptr& q, const Ptr& r, Map& m, const std::optional<D>& c, bool skip, I k) {
    if (!q || !r) return true;
    ghost(m) = 0;
    t.dual_tree_traversal(q, r, m, c, skip, k);
    return ghost(m) == visited(q, r, c, skip, k);
}
//@ dual_c
bool law_N04_dual_c(const TT& t, const Ptr& q, const Ptr& r, Map& m, const std::optional<D>& c, bool skip, I k) {
    if (!q || !r) return true;
    ghost(m) = 0;
    t.dual_tree_traversal_with_core_distances(q, r, m, c, skip, k);
    return ghost(m) == visited(q, r, c, skip, k);
}
//@ first_edge
bool law_N04_first_edge(const Tree& a, const Tree& b, SIt q, I d, I i, I j, D w) {
    Map m(a, b);
    U u(q, q + d, 1);
    u.update(j, w);
    m.queries_to_buffers_map_.emplace(i, u);
    m.update_priority_queue(m.queries_to_buffers_map_.find(i));
    return same(m.tightest_edge(), i, j, w);
}
//@ next_edge
bool law_N04_next_edge(const Tree& a, const Tree& b, SIt q, I d, I i, I j, D w, I x, I y, D z) {
    if (i == x && j == y) return true;
    Map m(a, b);
    m.kth_closest_edge_priority_queue_.emplace(x, y, z);
    m.priority_queue_visited_combinations_set_.insert({x, y});
    U u(q, q + d, 1);
    u.update(j, w);
    m.queries_to_buffers_map_.emplace(i, u);
    m.update_priority_queue(m.queries_to_buffers_map_.find(i));
    return w < z ? same(m.tightest_edge(), i, j, w) : same(m.tightest_edge(), x, y, z);
}
// the search starts from the two roots with no cost, and gives the edge left on top
void visit_root(const TT& t, const Ptr& q, const Ptr& r, Map& m, std::optional<D> c, bool skip, I k) { m.kth_closest_edge_priority_queue_.emplace(I(3), I(4), uf(76, q, r, k, D(c.has_value()), D(skip))); }
//! N04_start_t ffcl::search::TreeTraverser::dual_tree_traversal -> visit_root
//! N04_start_c ffcl::search::TreeTraverser::dual_tree_traversal_with_core_distances -> visit_root
//@ start_t
bool law_N04_start_t(const TT& t, const Tree& a, I k) { return same(t.dual_tree_shortest_edge(a, k), 3, 4, uf(76, a.root_, t.reference_indexer_.root_, k, D(0), D(0))); }
//@ start_c
bool law_N04_start_c(const TT& t, const Tree& a, I k) { return same(t.dual_tree_shortest_edge_with_core_distances(a, k), 3, 4, uf(76, a.root_, t.reference_indexer_.root_, k, D(0), D(0))); }
//@ start_s
bool law_N04_start_s(const Srch& t, const Tree& a, I k) { return same(t.dual_tree_shortest_edge(a, k), 3, 4, uf(76, a.root_, t.tree_traverser_.reference_indexer_.root_, k, D(0), D(0))); }
//! N04_start_s ffcl::search::TreeTraverser::dual_tree_traversal -> visit_root
// every query of the node is scanned against the reference node's samples, in the buffer of that query, and its edges are offered
void scan_range(U& u, IIt a, IIt b, SIt s, SIt e, I n) { u.furthest_distance_ = uf(80, a, b, s, e, n, u.furthest_distance_); }
void offer(Map& m, const Map::IndicesToBuffersMapIterator& it) { ghost(m) += uf(81, it->first, it->second.furthest_distance_, it->second.centroid_begin(), it->second.centroid_end(), it->second.max_capacity_); }
//! N04_scan ffcl::search::buffer::Unsorted::partial_search -> scan_range
//! N04_scan ffcl::search::buffer::StaticBuffer::partial_search -> scan_range
//! N04_scan ffcl::search::buffer::IndicesToBuffersMap::update_priority_queue -> offer
//@ scan
bool law_N04_scan_fresh(const Tree& a, const Tree& b, IIt x, IIt r, IIt e, I k) {
    Map m(a, b);
    const I i = x[0], j = x[1], n = a.n_features_;
    if (i == j) return true;
    ghost(m) = 0;
    m.partial_search_for_each_query(x, x + 2, r, e, k);
    const D s = uf(80, r, e, b.samples_range_first_, b.samples_range_last_, b.n_features_, ffcl::common::infinity<D>());
    const SIt q = a.samples_range_first_;
    return ghost(m) == uf(81, i, s, q + i * n, q + i * n + n, k) + uf(81, j, s, q + j * n, q + j * n + n, k);
}
//@ scan_again
bool law_N04_scan_again(const Tree& a, const Tree& b, IIt x, IIt r, IIt e, SIt q, I d, I k, D w) {
    Map m(a, b);
    const I i = x[0];
    U u(q, q + d, 1);
    u.furthest_distance_ = w;
    m.queries_to_buffers_map_.emplace(i, u);
    ghost(m) = 0;
    m.partial_search_for_each_query(x, x + 1, r, e, k);
    return ghost(m) == uf(81, i, uf(80, r, e, b.samples_range_first_, b.samples_range_last_, b.n_features_, w), q, q + d, I(1));
}
