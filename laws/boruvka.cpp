#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace ms = ffcl::datastruct::mst;
namespace se = ffcl::search;
namespace bf = ffcl::search::buffer;
using I    = std::size_t;
using Tree = ds::KDTree<IIt, SIt>;
using Srch = se::Searcher<Tree>;
using B    = ffcl::BoruvkasAlgorithm<Tree>;
using F    = B::Forest;
using Edge = ms::Edge<I, D>;
using W    = bf::WithUnionFind<SIt, ds::bounds::UnboundedBallView<SIt>>;
W nearest_outside(const Srch& s, W&& b) {
    b.furthest_distance_     = uf(43, b.centroid_begin(), b.centroid_end(), b.query_representative_, b.max_capacity());
    b.buffer_index_of_furthest_index_ = 0;
    b.indices_.resize(1);
    b.indices_[0] = I(uf(44, b.centroid_begin(), b.centroid_end(), b.query_representative_, b.max_capacity()));
    return std::move(b);
}
void record(F& f, const Edge& e) { ghost(f) += uf(45, std::get<0>(e), std::get<1>(e), std::get<2>(e)); }
//! G01_step ffcl::search::Searcher::operator() -> nearest_outside
//! G01_step ffcl::BoruvkasAlgorithm::Forest::merge_components -> record
//@ step
bool law_G01_step(const B& b, const Srch& s, F& f) {
    D want = 0;
    for (const auto& [r, c] : f.representatives_to_components_map_) {
        D best = std::numeric_limits<D>::infinity(); I i = 0, j = 0;
        for (const auto& q : c) {
            const auto d = uf(43, s.features_range_first(q), s.features_range_last(q), r, 1);
            const auto n = I(uf(44, s.features_range_first(q), s.features_range_last(q), r, 1));
            if (d < best) { best = d; i = q; j = n; }
        }
        want += uf(45, i, j, best);
    }
    ghost(f) = 0;
    b.step_sequential(s, f);
    return ghost(f) == want;
}
//@ step_core
bool law_G01_step_core(const B& b, const Srch& s, F& f, const B::CoreDistancesArrayType& k) {
    D want = 0;
    for (const auto& [r, c] : f.representatives_to_components_map_) {
        D best = std::numeric_limits<D>::infinity(); I i = 0, j = 0;
        for (const auto& q : c) {
            const auto n = I(uf(44, s.features_range_first(q), s.features_range_last(q), r, 1));
            const auto d = std::max(std::max(k[q], k[n]), uf(43, s.features_range_first(q), s.features_range_last(q), r, 1));
            if (d < best) { best = d; i = q; j = n; }
        }
        want += uf(45, i, j, best);
    }
    ghost(f) = 0;
    b.step_sequential(s, k, f);
    return ghost(f) == want;
}
//@ step_dual
bool law_G01_step_dual(const B& b, const Srch& s, F& f) {
    const auto& m = f.representatives_to_components_map_;
    auto p = m.begin();
    for (auto it = m.begin(); it != m.end(); ++it) if (it->second.size() < p->second.size()) p = it;
    D best = std::numeric_limits<D>::infinity(); I i = 0, j = 0;
    for (const auto& q : p->second) {
        const auto d = uf(43, s.features_range_first(q), s.features_range_last(q), p->first, 1);
        const auto n = I(uf(44, s.features_range_first(q), s.features_range_last(q), p->first, 1));
        if (d < best) { best = d; i = q; j = n; }
    }
    ghost(f) = 0;
    b.dual_component_step_sequential(s, f);
    return ghost(f) == uf(45, i, j, best);
}
//@ step_dual_core
bool law_G01_step_dual_core(const B& b, const Srch& s, F& f, const B::CoreDistancesArrayType& k) {
    const auto& m = f.representatives_to_components_map_;
    auto p = m.begin();
    for (auto it = m.begin(); it != m.end(); ++it) if (it->second.size() < p->second.size()) p = it;
    D best = std::numeric_limits<D>::infinity(); I i = 0, j = 0;
    for (const auto& q : p->second) {
        const auto n = I(uf(44, s.features_range_first(q), s.features_range_last(q), p->first, 1));
        const auto d = std::max(std::max(k[q], k[n]), uf(43, s.features_range_first(q), s.features_range_last(q), p->first, 1));
        if (d < best) { best = d; i = q; j = n; }
    }
    ghost(f) = 0;
    b.dual_component_step_sequential(s, k, f);
    return ghost(f) == uf(45, i, j, best);
}
