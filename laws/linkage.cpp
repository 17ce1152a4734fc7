#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace ms = ffcl::datastruct::mst;
using I    = std::size_t;
using SL   = ds::SingleLinkageClusterTree<I, D>;
using SP   = SL::SingleLinkageClusterNodePtr;
using List = ms::EdgesList<I, D>;
namespace sl { template <class... T> SP ufp(T...); }
// sets and their representatives: merging returns the representative of one of the two sets
I fnd(const ds::UnionFind<I>& u, const I& a) { return I(uf(1, a)); }
I mrg(ds::UnionFind<I>& u, const I& a, const I& b) { return uf(2, a, b) > 0 ? I(uf(1, a)) : I(uf(1, b)); }
//! C04_effects ffcl::datastruct::UnionFind::find -> fnd
//! C04_effects ffcl::datastruct::UnionFind::merge -> mrg
//@ effects
auto eff_C04_effects(SL& t, I k) {
    const auto e = t.sorted_mst_[k];
    const auto a = std::get<0>(e), b = std::get<1>(e);
    const auto m = uf(2, a, b) > 0 ? I(uf(1, a)) : I(uf(1, b));
    const auto r = std::make_tuple(I(uf(1, a)), I(uf(1, b)), m, std::get<2>(e), t.sorted_mst_.size(), k);
    t.build();
    return r;
}
SP linked(SL& t) {
    D h = 0;
    for (I j = 0; j < t.sorted_mst_.size(); ++j) h += uf(83, j, std::get<0>(t.sorted_mst_[j]), std::get<1>(t.sorted_mst_[j]), std::get<2>(t.sorted_mst_[j]));
    return sl::ufp(84, h);
}
//! C04_ctor ffcl::datastruct::SingleLinkageClusterTree::build -> linked
//@ ctors
template <class X> bool made(const X& t, const List& l, D cut, I m) {
    const List s = ms::sort_copy(l);
    D h = 0;
    for (I j = 0; j < s.size(); ++j) h += uf(83, j, std::get<0>(s[j]), std::get<1>(s[j]), std::get<2>(s[j]));
    return t.root() == sl::ufp(84, h) && t.options_.cut_level_ == cut && t.options_.min_cluster_size_ == m;
}
bool law_C04_ctor_copy(const List& l) { const SL t(l); const SL::Options o; return made(t, l, o.cut_level_, o.min_cluster_size_); }
bool law_C04_ctor_copy_options(const List& l, const SL::Options& o) { const SL t(l, o); return made(t, l, o.cut_level_, o.min_cluster_size_); }
bool law_C04_ctor_move(const List& l) { List m(l); const SL t(std::move(m)); const SL::Options o; return made(t, l, o.cut_level_, o.min_cluster_size_); }
bool law_C04_ctor_move_options(const List& l, const SL::Options& o) { List m(l); const SL t(std::move(m), o); return made(t, l, o.cut_level_, o.min_cluster_size_); }
