#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace bd = ffcl::datastruct::bounds;
using Seg1 = bd::segment::LowerBoundAndUpperBound<D>;
using Seg2 = bd::segment::LowerBoundAndLength<D>;
using Ba1  = bd::AABBWithCentroid<Seg1>;
using Ba2  = bd::AABBWithCentroid<Seg2>;
using Bl   = bd::Ball<D>;
using Blv  = bd::BallView<SIt>;
using Ub   = bd::UnboundedBall<D>;
using Ubv  = bd::UnboundedBallView<SIt>;
template class ffcl::datastruct::UnionFind<std::size_t>;
template class ffcl::datastruct::bounds::segment::LowerBoundAndUpperBound<D>;
template class ffcl::datastruct::bounds::segment::LowerBoundAndLength<D>;
template class ffcl::datastruct::bounds::AABB<Seg1>;
template class ffcl::datastruct::bounds::AABB<Seg2>;
template class ffcl::datastruct::bounds::AABBWithCentroid<Seg1>;
template class ffcl::datastruct::bounds::AABBWithCentroid<Seg2>;
template class ffcl::datastruct::bounds::Ball<D>;
template class ffcl::datastruct::bounds::BallView<SIt>;
template class ffcl::datastruct::bounds::UnboundedBall<D>;
template class ffcl::datastruct::PairwiseDistanceMatrix<SIt>;
template class ffcl::datastruct::PairwiseDistanceMatrixDynamic<SIt>;
template class ffcl::datastruct::mst::CoreDistancesArray<D>;
template <class S> void w_seg(S& s, const S& t, D v) {
    s.lower_bound(); s.upper_bound(); s.centroid(); s.centroid_to_bound_distance(); s.contains_value(v); s.update_lower_bound(v); s.update_upper_bound(v);
    bd::min_distance(s, t);
}
template <class B, class It> void w_bound(B& b, It f, It l) {
    b.n_features(); b.diameter(); b.is_in_bounds(f, l); b.centroid_to_furthest_bound_distance();
    b.compute_distance_to_centroid_if_within_bounds(f, l); b.centroid_begin(); b.centroid_end();
}
template <class B, class It> void w_bound_nodiameter(B& b, It f, It l) {
    b.n_features(); b.is_in_bounds(f, l); b.centroid_to_furthest_bound_distance();
    b.compute_distance_to_centroid_if_within_bounds(f, l); b.centroid_begin(); b.centroid_end();
}
void w_bounds(Seg1& s1, Seg2& s2, Ba1& b1, Ba2& b2, Bl& bl, Blv& bv, Ub& ub, Ubv& uv, SIt f, SIt l, D v) {
    w_seg(s1, s1, v); w_seg(s2, s2, v);
    w_bound(b1, f, l); w_bound(b2, f, l); w_bound(bl, f, l); w_bound(bv, f, l); w_bound(ub, f, l); w_bound_nodiameter(uv, f, l);
    b1.segment_at(0); const Ba1& c1 = b1; c1.segment_at(0);
    bd::AABB<Seg1> a{std::vector<Seg1>{}}; a.diameter(); a.is_in_bounds(f, l); a.n_features();
    bd::min_distance(a, a); bd::min_distance(b1, b1); bd::min_distance(b2, b2); bd::min_distance(bl, bl); bd::min_distance(bv, bv); bd::min_distance(ub, ub); bd::min_distance(uv, uv);
}
void w_matrix(SIt a, SIt b, ds::PairwiseDistanceMatrix<SIt>& m, ds::PairwiseDistanceMatrixDynamic<SIt>& n) { m(0, 1); n(0, 1); m.n_rows(); n.n_rows(); }
void w_mst(ds::mst::EdgesList<std::size_t, D>& e) { ds::mst::sort(std::move(e)); ds::mst::sort_copy(e); ds::mst::make_default_edge<std::size_t, D>(); ds::mst::make_edge(std::size_t(1), std::size_t(2), D(1)); ds::mst::print(e); }
template class ffcl::datastruct::SingleLinkageClusterTree<std::size_t, D>;
template class ffcl::datastruct::CondensedClusterTree<std::size_t, D>;
template class ffcl::datastruct::SingleLinkageClusterNode<std::size_t, D>;
template class ffcl::datastruct::CondensedClusterNode<std::size_t, D>;
