#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace ms = ffcl::datastruct::mst;
namespace se = ffcl::search;
namespace bf = ffcl::search::buffer;
using I    = std::size_t;
using Tree = ds::KDTree<IIt, SIt>;
using Srch = se::Searcher<Tree>;
using B    = ffcl::BoruvkasAlgorithm<Tree>;
using F    = B::Forest;
using Edge = ms::Edge<I, D>;
using List = ms::EdgesList<I, D>;
using U    = bf::Unsorted<SIt>;
using W    = bf::WithUnionFind<SIt, ds::bounds::UnboundedBallView<SIt>>;
I root_of(const ds::UnionFind<I>& u, I i) { return I(uf(2, i)); }
I join(ds::UnionFind<I>& u, I i, I j) { ghost(u) += uf(41, i, j); return uf(42, i, j) > 0 ? I(uf(2, i)) : I(uf(2, j)); }
U nearest(const Srch& s, U&& b) { b.furthest_distance_ = uf(43, b.centroid_begin(), b.centroid_end(), b.max_capacity()); return std::move(b); }

//@ edge
bool law_G01_edge(I i, I j, D d) {
    const auto e = ms::make_edge(i, j, d);
    const auto f = ms::make_default_edge<I, D>();
    return std::get<0>(e) == i && std::get<1>(e) == j && std::get<2>(e) == d && std::get<2>(f) == std::numeric_limits<D>::infinity();
}
//@ sort
bool law_G01_sort(List& m, I i, I j) {
    if (!(i < j && j < m.size())) return true;
    const auto n = m.size();
    const auto r = ms::sort(std::move(m));
    return r.size() == n && std::get<2>(r[i]) <= std::get<2>(r[j]);
}
//@ sort_copy
bool law_G01_sort_copy(const List& m, I i, I j) {
    if (!(i < j && j < m.size())) return true;
    const auto a = std::get<0>(m[i]), b = std::get<1>(m[i]); const auto c = std::get<2>(m[i]);
    const auto r = ms::sort_copy(m);
    return r.size() == m.size() && std::get<2>(r[i]) <= std::get<2>(r[j]) && std::get<0>(m[i]) == a && std::get<1>(m[i]) == b && std::get<2>(m[i]) == c;
}
//@ sort_all
bool law_G01_sort_all(const List& m) {
    const auto r = ms::sort_copy(m);
    D a = 0, b = 0;
    for (I i = 0; i < m.size(); ++i) a += uf(40, std::get<0>(m[i]), std::get<1>(m[i]), std::get<2>(m[i]));
    for (I i = 0; i < r.size(); ++i) b += uf(40, std::get<0>(r[i]), std::get<1>(r[i]), std::get<2>(r[i]));
    return a == b;
}
//@ sort_move_all
bool law_G01_sort_move_all(List& m) {
    D a = 0, b = 0;
    for (I i = 0; i < m.size(); ++i) a += uf(40, std::get<0>(m[i]), std::get<1>(m[i]), std::get<2>(m[i]));
    const auto r = ms::sort(std::move(m));
    for (I i = 0; i < r.size(); ++i) b += uf(40, std::get<0>(r[i]), std::get<1>(r[i]), std::get<2>(r[i]));
    return a == b;
}
//@ forest
bool law_G01_forest(I n, I i) {
    if (!(i < n)) return true;
    const F f(n);
    return f.n_components() == n && f.minimum_spanning_tree_.size() == 0 && f.union_find_.find(i) == i && f.representatives_to_components_map_.count(i) == 1;
}
//! G01_merge ffcl::datastruct::UnionFind::find -> root_of
//! G01_merge ffcl::datastruct::UnionFind::merge -> join
//@ merge_edges
bool law_G01_merge_edges(F& f, const Edge& e, I i) {
    const auto a = I(uf(2, std::get<0>(e))), b = I(uf(2, std::get<1>(e)));
    const auto n = f.minimum_spanning_tree_.size();
    ghost(f.union_find_) = 0;
    f.merge_components(e);
    const auto& t = f.minimum_spanning_tree_;
    if (a == b) return t.size() == n && ghost(f.union_find_) == 0;
    return t.size() == n + 1 && std::get<0>(t[n]) == std::get<0>(e) && std::get<1>(t[n]) == std::get<1>(e) && std::get<2>(t[n]) == std::get<2>(e) && ghost(f.union_find_) == uf(41, std::get<0>(e), std::get<1>(e));
}
//@ merge_map
bool law_G01_merge_map(F& f, const Edge& e, I k) {
    auto& m = f.representatives_to_components_map_;
    const auto a = I(uf(2, std::get<0>(e))), b = I(uf(2, std::get<1>(e)));
    if (m.count(a) == 0 || m.count(b) == 0) return true;
    const bool had = m.count(k) == 1;
    const auto n = m.size();
    const auto keep = uf(42, std::get<0>(e), std::get<1>(e)) > 0 ? a : b, drop = keep == a ? b : a;
    f.merge_components(e);
    if (a == b) return m.size() == n && (m.count(k) == 1) == had && f.n_components() == n;
    return m.size() == n - 1 && (m.count(k) == 1) == (had && k != drop) && f.n_components() == n - 1;
}
//@ merge_members_first
bool law_G01_merge_members_first(F& f, const Edge& e) {
    auto& m = f.representatives_to_components_map_;
    const auto a = I(uf(2, std::get<0>(e))), b = I(uf(2, std::get<1>(e)));
    if (m.count(a) == 0 || m.count(b) == 0 || a == b || !(uf(42, std::get<0>(e), std::get<1>(e)) > 0)) return true;
    const auto x = m.find(a)->second, y = m.find(b)->second;
    f.merge_components(e);
    const auto& z = m.find(a)->second;
    D s = 0, t = 0;
    for (const auto v : x) s += uf(40, v);
    for (const auto v : y) s += uf(40, v);
    for (const auto v : z) t += uf(40, v);
    return z.size() == x.size() + y.size() && s == t;
}
//@ merge_members_second
bool law_G01_merge_members_second(F& f, const Edge& e) {
    auto& m = f.representatives_to_components_map_;
    const auto a = I(uf(2, std::get<0>(e))), b = I(uf(2, std::get<1>(e)));
    if (m.count(a) == 0 || m.count(b) == 0 || a == b || uf(42, std::get<0>(e), std::get<1>(e)) > 0) return true;
    const auto x = m.find(b)->second, y = m.find(a)->second;
    f.merge_components(e);
    const auto& z = m.find(b)->second;
    D s = 0, t = 0;
    for (const auto v : x) s += uf(40, v);
    for (const auto v : y) s += uf(40, v);
    for (const auto v : z) t += uf(40, v);
    return z.size() == x.size() + y.size() && s == t;
}
//! G02_core ffcl::search::Searcher::operator() -> nearest
//@ core
bool law_G02_core(const Srch& s, I k, I i) {
    if (!(i < s.n_samples())) return true;
    const auto c = ms::make_static_core_distances(s, k);
    return c[i] == uf(43, s.features_range_first(i), s.features_range_last(i), k) && c.size_ == s.n_samples();
}
//@ options
bool law_G02_options(B::Options& o, I k) {
    const B::Options d;
    o.k_nearest_neighbors(k);
    const B::Options q(o); B::Options w; w = o;
    const B b(o); B c; c.set_options(o);
    return o.k_nearest_neighbors_ == k && q.k_nearest_neighbors_ == k && w.k_nearest_neighbors_ == k && d.k_nearest_neighbors_ == 3 && b.options_.k_nearest_neighbors_ == k && c.options_.k_nearest_neighbors_ == k;
}
