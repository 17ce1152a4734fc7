#include "prelude.hpp"
namespace bd = ffcl::datastruct::bounds;
using Seg1 = bd::segment::LowerBoundAndUpperBound<D>;
using Seg2 = bd::segment::LowerBoundAndLength<D>;
using Box  = bd::AABB<Seg1>;
using Box2 = bd::AABB<Seg2>;
using BoxC = bd::AABBWithCentroid<Seg1>;
using BoxC2 = bd::AABBWithCentroid<Seg2>;
using Bl   = bd::Ball<D>;
using Blv  = bd::BallView<SIt>;
using Ub   = bd::UnboundedBall<D>;
using Ubv  = bd::UnboundedBallView<SIt>;
namespace h = ffcl::common::math::heuristics;
template <class S> D gap(const S& a, const S& b) { return a.upper_bound() < b.lower_bound() ? b.lower_bound() - a.upper_bound() : b.upper_bound() < a.lower_bound() ? a.lower_bound() - b.upper_bound() : D(0); }
//@ seg_ctor
bool law_B01_segment_construction(D a, D b) {
    const Seg1 s(a, b), t(std::make_pair(a, b)); const Seg2 u(a, b), v(std::make_pair(a, b));
    return s.lower_bound() == a && s.upper_bound() == b && t.lower_bound() == a && t.upper_bound() == b && u.lower_bound() == a && u.upper_bound() == a + b && v.lower_bound() == a && v.upper_bound() == a + b;
}
//@ seg_lower
bool law_B01_update_lower(Seg1& s, D v) { const D u = s.upper_bound(); s.update_lower_bound(v); return s.lower_bound() == v && s.upper_bound() == u; }
//@ seg_upper
bool law_B01_update_upper(Seg1& s, D v) { const D l = s.lower_bound(); s.update_upper_bound(v); return s.lower_bound() == l && s.upper_bound() == v; }
//@ seg_lower2
bool law_B01_update_lower_length(Seg2& s, D v) { const D u = s.upper_bound(); s.update_lower_bound(v); return s.lower_bound() == v && s.upper_bound() == u; }
//@ seg_upper2
bool law_B01_update_upper_length(Seg2& s, D v) { const D l = s.lower_bound(); s.update_upper_bound(v); return s.lower_bound() == l && s.upper_bound() == v; }
//@ seg_contains
bool law_B01_contains(const Seg1& s, const Seg2& t, D v) { return s.contains_value(v) == (s.lower_bound() <= v && v <= s.upper_bound()) && t.contains_value(v) == (t.lower_bound() <= v && v <= t.upper_bound()); }
//@ seg_centroid
bool law_B01_segment_centroid(const Seg1& s, const Seg2& t) { return s.centroid() == (s.lower_bound() + s.upper_bound()) / 2 && t.centroid() == (t.lower_bound() + t.upper_bound()) / 2; }
//@ seg_half
bool law_B01_segment_halfwidth(const Seg1& s, const Seg2& t) { return s.centroid_to_bound_distance() == (s.upper_bound() - s.lower_bound()) / 2 && t.centroid_to_bound_distance() == (t.upper_bound() - t.lower_bound()) / 2; }
//@ seg_min
bool law_B02_segment_min_distance(const Seg1& a, const Seg1& b) { return bd::min_distance(a, b) == gap(a, b); }
//@ seg_min2
bool law_B02_segment_min_distance_length(const Seg2& a, const Seg2& b) { return bd::min_distance(a, b) == gap(a, b); }
//@ seg_min_sym
bool law_B02_segment_min_distance_symmetric(const Seg1& a, const Seg1& b) {
    if (!(a.lower_bound() <= a.upper_bound() && b.lower_bound() <= b.upper_bound())) return true;
    return bd::min_distance(a, b) == bd::min_distance(b, a) && bd::min_distance(a, b) >= 0; }
//@ seg_min_low
bool law_B02_segment_min_distance_is_lower_bound(const Seg1& a, const Seg1& b, D x, D y) {
    if (!(a.contains_value(x) && b.contains_value(y))) return true;
    const D m = bd::min_distance(a, b);
    return m <= x - y || m <= y - x; }
//@ box_in
bool law_B01_box_membership(const Box& b, SIt f, std::size_t n) {
    bool in = true;
    for (std::size_t i = 0; i < n; ++i) in = in && b.segment_at(i).lower_bound() <= f[i] && f[i] <= b.segment_at(i).upper_bound();
    return b.is_in_bounds(f, f + n) == in;
}
//@ boxc_in
bool law_B01_boxc_membership(const BoxC& b, SIt f, std::size_t n) {
    bool in = true;
    for (std::size_t i = 0; i < n; ++i) in = in && b.segment_at(i).lower_bound() <= f[i] && f[i] <= b.segment_at(i).upper_bound();
    return b.is_in_bounds(f, f + n) == in;
}
//@ boxc2_in
bool law_B01_boxc2_membership(const BoxC2& b, SIt f, std::size_t n) {
    bool in = true;
    for (std::size_t i = 0; i < n; ++i) in = in && b.segment_at(i).lower_bound() <= f[i] && f[i] <= b.segment_at(i).upper_bound();
    return b.is_in_bounds(f, f + n) == in;
}
//@ box_diam
bool law_B01_box_diameter(const Box& b) {
    D s = 0;
    for (std::size_t i = 0; i < b.n_features(); ++i) { const D l = b.segment_at(i).upper_bound() - b.segment_at(i).lower_bound(); s += l * l; }
    return b.diameter() == std::sqrt(s);
}
//@ boxc_diam
bool law_B01_boxc_diameter(const BoxC& b) {
    D s = 0;
    for (std::size_t i = 0; i < b.n_features(); ++i) { const D l = b.segment_at(i).upper_bound() - b.segment_at(i).lower_bound(); s += l * l; }
    return b.diameter() == std::sqrt(s);
}
//@ boxc_furthest
bool law_B01_boxc_furthest(const BoxC& b) {
    D m = 0;
    for (std::size_t i = 0; i < b.n_features(); ++i) { const D x = b.segment_at(i).centroid_to_bound_distance(); if (x > m) m = x; }
    return b.centroid_to_furthest_bound_distance() == m;
}
//@ boxc_half
bool law_B01_boxc_bound_distance(const BoxC& b, std::size_t i) { return b.centroid_to_bound_distance(i) == (b.segment_at(i).upper_bound() - b.segment_at(i).lower_bound()) / 2; }
//@ boxc_centroid
bool law_B01_boxc_centroid(const std::vector<Seg1>& v, std::size_t i) {
    const BoxC b{BoxC::SegmentsType(v)};
    if (!(i < v.size())) return true;
    return b.centroid_at(i) == (v[i].lower_bound() + v[i].upper_bound()) / 2 && b.n_features() == v.size() && b.segment_at(i).lower_bound() == v[i].lower_bound() && b.segment_at(i).upper_bound() == v[i].upper_bound() && b.centroid_end() - b.centroid_begin() == v.size();
}
//@ boxc_centroid_copy
bool law_B01_boxc_centroid_copy(const std::vector<Seg1>& v, std::size_t i) {
    const BoxC::SegmentsType g(v);
    const BoxC b(g);
    if (!(i < v.size())) return true;
    return b.centroid_at(i) == (v[i].lower_bound() + v[i].upper_bound()) / 2 && b.n_features() == v.size() && b.segment_at(i).lower_bound() == v[i].lower_bound() && b.segment_at(i).upper_bound() == v[i].upper_bound() && b.centroid_end() - b.centroid_begin() == v.size();
}
//@ boxc_given
bool law_B01_boxc_given(const std::vector<Seg1>& v, const std::vector<D>& c, std::size_t i) {
    const BoxC::SegmentsType g(v); const BoxC::CentroidType e(c);
    const BoxC a(e, g), b{BoxC::CentroidType(c), BoxC::SegmentsType(v)};
    if (!(i < v.size()) || c.size() != v.size()) return true;
    return a.centroid_at(i) == c[i] && b.centroid_at(i) == c[i] && a.n_features() == v.size() && b.n_features() == v.size() && a.segment_at(i).lower_bound() == v[i].lower_bound() && a.segment_at(i).upper_bound() == v[i].upper_bound() && b.segment_at(i).lower_bound() == v[i].lower_bound() && b.segment_at(i).upper_bound() == v[i].upper_bound();
}
//@ boxc_dist
bool law_B01_boxc_distance(const BoxC& b, SIt f, std::size_t n) {
    const auto d = b.compute_distance_to_centroid_if_within_bounds(f, f + n);
    const bool in = b.is_in_bounds(f, f + n);
    if (d.has_value() != in) return false;
    return !in || *d == h::auto_distance(f, f + n, b.centroid_begin(), b.centroid_end());
}
//@ box_min
bool law_B02_box_min_distance(const Box& a, const Box& b) {
    D s = 0;
    for (std::size_t i = 0; i < b.n_features(); ++i) { const D g = gap(a.segment_at(i), b.segment_at(i)); s += g * g; }
    return bd::min_distance(a, b) == std::sqrt(s);
}
//@ boxc_min
bool law_B02_boxc_min_distance(const BoxC& a, const BoxC& b) {
    D s = 0;
    for (std::size_t i = 0; i < b.n_features(); ++i) { const D g = gap(a.segment_at(i), b.segment_at(i)); s += g * g; }
    return bd::min_distance(a, b) == std::sqrt(s);
}
//@ ball
bool law_B01_ball(const std::vector<D>& c, D r, SIt f, std::size_t n) {
    const Bl b(Bl::CentroidType(c), r);
    const D d = h::auto_distance(f, f + n, c.begin(), c.end());
    const auto o = b.compute_distance_to_centroid_if_within_bounds(f, f + n);
    return b.is_in_bounds(f, f + n) == (d < r) && b.distance_to_centroid(f, f + n) == d && o.has_value() == (d < r) && (!(d < r) || *o == d) && b.diameter() == 2 * r && b.centroid_to_furthest_bound_distance() == r && b.centroid_to_bound_distance(0) == r && b.n_features() == c.size();
}
//@ ballview
bool law_B01_ballview(SIt c, D r, SIt f, std::size_t n) {
    const Blv b(c, c + n, r);
    const D d = h::auto_distance(f, f + n, c, c + n);
    const auto o = b.compute_distance_to_centroid_if_within_bounds(f, f + n);
    return b.is_in_bounds(f, f + n) == (d < r) && b.distance_to_centroid(f, f + n) == d && o.has_value() == (d < r) && (!(d < r) || *o == d) && b.diameter() == 2 * r && b.centroid_to_furthest_bound_distance() == r && b.centroid_to_bound_distance(0) == r && b.n_features() == n && b.centroid_begin() == c && b.centroid_end() == c + n;
}
//@ unbounded
bool law_B01_unbounded(const std::vector<D>& c, SIt f, std::size_t n) {
    const Ub b{Ub::CentroidType(c)};
    const D d = h::auto_distance(f, f + n, c.begin(), c.end());
    const auto o = b.compute_distance_to_centroid_if_within_bounds(f, f + n);
    return b.is_in_bounds(f, f + n) && b.distance_to_centroid(f, f + n) == d && o.has_value() && *o == d && b.centroid_to_furthest_bound_distance() == ffcl::common::infinity<D>() && b.n_features() == c.size();
}
//@ unboundedview
bool law_B01_unboundedview(SIt c, SIt f, std::size_t n) {
    const Ubv b(c, c + n);
    const D d = h::auto_distance(f, f + n, c, c + n);
    const auto o = b.compute_distance_to_centroid_if_within_bounds(f, f + n);
    return b.is_in_bounds(f, f + n) && b.distance_to_centroid(f, f + n) == d && o.has_value() && *o == d && b.centroid_to_furthest_bound_distance() == ffcl::common::infinity<D>() && b.n_features() == n && b.centroid_begin() == c && b.centroid_end() == c + n;
}
//@ ball_min
bool law_B02_ball_min_distance(const std::vector<D>& c, const std::vector<D>& e, D r, D q) {
    const Bl a(Bl::CentroidType(c), r), b(Bl::CentroidType(e), q);
    const D d = h::auto_distance(c.begin(), c.end(), e.begin(), e.end()) - (r + q);
    return bd::min_distance(a, b) == (d < 0 ? D(0) : d);
}
//@ ballview_min
bool law_B02_ballview_min_distance(SIt c, SIt e, std::size_t n, D r, D q) {
    const Blv a(c, c + n, r), b(e, e + n, q);
    const D d = h::auto_distance(c, c + n, e, e + n) - (r + q);
    return bd::min_distance(a, b) == (d < 0 ? D(0) : d);
}
//@ unbounded_min
bool law_B02_unbounded_min_distance(const Ub& a, const Ub& b, const Ubv& c, const Ubv& d) { return bd::min_distance(a, b) == 0 && bd::min_distance(c, d) == 0; }
