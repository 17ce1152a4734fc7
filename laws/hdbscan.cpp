#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace ms = ffcl::datastruct::mst;
namespace se = ffcl::search;
using I    = std::size_t;
using Tree = ds::KDTree<IIt, SIt>;
using Srch = se::Searcher<Tree>;
using B    = ffcl::BoruvkasAlgorithm<Tree>;
using F    = B::Forest;
using Core = B::CoreDistancesArrayType;
using List = ms::EdgesList<I, D>;
using SL   = ds::SingleLinkageClusterTree<I, D>;
using SP   = SL::SingleLinkageClusterNodePtr;
using CT   = ds::CondensedClusterTree<I, D>;
using CP   = CT::CondensedClusterNodePtr;
using H    = ffcl::HDBSCAN<Tree>;
using Flat = std::vector<I>;
namespace sl { template <class... T> SP ufp(T...); }
template <class... T> CP ufp(T...);
static I few(D x, I n) { return I(x < 0 ? -x : x) % n; }
// every step adds one edge that tells which step it was and what it was given
void one(const B& b, const Srch& s, F& f) { f.minimum_spanning_tree_.push_back(ms::make_edge(I(1), I(0), D(s.n_features()))); }
void one(const B& b, const Srch& s, const Core& k, F& f) { f.minimum_spanning_tree_.push_back(ms::make_edge(I(2), I(0), D(s.n_features()) + k[0])); }
void two(const B& b, const Srch& s, F& f) { f.minimum_spanning_tree_.push_back(ms::make_edge(I(3), I(0), D(s.n_features()))); }
void two(const B& b, const Srch& s, const Core& k, F& f) { f.minimum_spanning_tree_.push_back(ms::make_edge(I(4), I(0), D(s.n_features()) + k[0])); }
I    left(const F& f) { return f.union_find_.n_samples_ - f.minimum_spanning_tree_.size(); }
Core cores(const Srch& s, const I& k) { Core c(1); c[0] = uf(80, k, s.n_features()); return c; }
//! G01_make_tree ffcl::BoruvkasAlgorithm::step_sequential -> one
//! G01_make_tree ffcl::BoruvkasAlgorithm::dual_component_step_sequential -> two
//! G01_make_tree ffcl::BoruvkasAlgorithm::Forest::n_components -> left
//! G01_make_tree ffcl::datastruct::mst::make_static_core_distances -> cores
//@ make_tree
bool law_G01_make_tree(const B& b, Tree& t, I i) {
    const I n = t.n_samples(), k = b.options_.k_nearest_neighbors_; const D d = t.n_features();
    const bool core = k > 1;
    if (!(i + 1 < n)) return true;
    const auto r = b.make_tree(std::move(t));
    return r.size() == n - 1 && std::get<0>(r[i]) == (i + 2 == n ? (core ? 4 : 3) : (core ? 2 : 1)) && std::get<2>(r[i]) == (core ? d + uf(80, k, I(d)) : d);
}
//@ options
bool law_L02_options(H::Options& o, I k, I m, bool l, bool a) {
    const H::Options d;
    const auto k0 = o.k_nearest_neighbors_, m0 = o.min_cluster_size_; const bool l0 = o.return_leaf_nodes_, a0 = o.allow_single_cluster_;
    const auto is = [](const H::Options& x, I k, I m, bool l, bool a) { return x.k_nearest_neighbors_ == k && x.min_cluster_size_ == m && x.return_leaf_nodes_ == l && x.allow_single_cluster_ == a; };
    H::Options p(o), q(o), r(o), s(o), w;
    p.k_nearest_neighbors(k); q.min_cluster_size(m); r.return_leaf_nodes(l); s.allow_single_cluster(a);
    w = o;
    const H x(o); H y; y.set_options(o);
    return is(d, 1, 5, false, true) && is(o, k0, m0, l0, a0) && is(p, k, m0, l0, a0) && is(q, k0, m, l0, a0) && is(r, k0, m0, l, a0) && is(s, k0, m0, l0, a) && is(w, k0, m0, l0, a0) && is(x.options_, k0, m0, l0, a0) && is(y.options_, k0, m0, l0, a0);
}
template <class X> List edges(const B& b, X& t) {
    List l;
    const I n = few(uf(81), 4);
    for (I j = 0; j < n; ++j) l.push_back(ms::make_edge(j, j, uf(82, j, b.options_.k_nearest_neighbors_, t.n_features())));
    return l;
}
List spanning(const B& b, Tree& t) { return edges(b, t); }
SP linked(SL& t) {
    D h = 0;
    for (I j = 0; j < t.sorted_mst_.size(); ++j) h += uf(83, std::get<0>(t.sorted_mst_[j]), std::get<2>(t.sorted_mst_[j]));
    return sl::ufp(84, h);
}
CP   condensed(CT& t, const SP& n) { return ufp(85, n, t.options_.min_cluster_size_); }
D    choose(CT& t, CP c) { ghost(t) += uf(86, c); return 0; }
Flat flat(const CT& t) { Flat f(2); f[0] = I(few(uf(87, t.root_, t.options_.min_cluster_size_, t.options_.return_leaf_nodes_, t.options_.allow_single_cluster_), 1000)); f[1] = few(ghost(t), 1000); return f; }
//! L02_predict ffcl::BoruvkasAlgorithm::make_tree -> spanning
//! L02_predict ffcl::datastruct::SingleLinkageClusterTree::build -> linked
//! L02_predict ffcl::datastruct::CondensedClusterTree::build -> condensed
//! L02_predict ffcl::datastruct::CondensedClusterTree::select_subtree -> choose
//! L02_predict ffcl::datastruct::CondensedClusterTree::extract_flat_clusters -> flat
//@ predict
bool law_L02_predict(const H& h, Tree& t) {
    const auto& o = h.options_;
    D s = 0;
    const I n = few(uf(81), 4), d = t.n_features();
    for (I j = 0; j < n; ++j) s += uf(83, j, uf(82, j, o.k_nearest_neighbors_, d));
    const SP root = sl::ufp(84, s);
    const CP r = ufp(85, root, o.min_cluster_size_);
    const auto f = h.predict(std::move(t));
    return f.size() == 2 && f[0] == few(uf(87, r, o.min_cluster_size_, o.return_leaf_nodes_, o.allow_single_cluster_), 1000) && f[1] == (o.return_leaf_nodes_ ? 0 : few(uf(86, r), 1000));
}
