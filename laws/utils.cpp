#include "prelude.hpp"
namespace c = ffcl::common;
namespace la = ffcl::common::math::linear_algebra;
namespace ds = ffcl::datastruct;
using Sg = ds::bounds::segment::LowerBoundAndUpperBound<D>;
using II = std::vector<int>::const_iterator;
template <class F> std::size_t tally(std::size_t n, F f) { std::size_t s = 0; for (std::size_t i = 0; i < n; ++i) if (f(i)) ++s; return s; }
template <class F> bool some(std::size_t n, F f) { bool r = false; for (std::size_t i = 0; i < n; ++i) r = r || f(i); return r; }
//@ abs
bool law_A01_abs(D x, int i) { return c::abs(x) == (x < 0 ? -x : x) && c::abs(i) == (i < 0 ? -i : i); }
//@ equality_int
bool law_A01_equality_int(int a, int b) { return c::equality(a, b) == (a == b) && c::inequality(a, b) == (a != b); }
//@ equality_float
bool law_A01_equality_float(D a, D b) { return c::equality(a, b) == (std::abs(a - b) <= std::numeric_limits<D>::epsilon()) && c::inequality(a, b) == !c::equality(a, b) && c::equality(a, b) == c::equality(b, a); }
//@ division
bool law_A01_division(D a, D b, D e) { return c::division(a, b, e) == (std::abs(b) <= std::numeric_limits<D>::epsilon() ? e : a / b); }
//@ division_int
bool law_A01_division_int(int a, int b, int e) { return c::division(a, b, e) == (b == 0 ? e : a / b); }
//@ center
bool law_A01_center(D a, D b) { return c::compute_center_with_left_rounding(a, b) == (a + b) / 2 && c::compute_size_from_center_with_left_rounding(a, b) == (b - a) / 2; }
//@ center_int
bool law_A01_center_int(unsigned a, unsigned b) { const int x = a, y = a + b; return c::compute_center_with_left_rounding(x, y) == (x + y) / 2 && c::compute_size_from_center_with_left_rounding(x, y) == 1 + y - (x + y) / 2; }
//@ to_type
bool law_A01_to_type(II a, std::size_t n, std::size_t j, SIt s) {
    if (!(j < n)) return true;
    const auto v = c::to_type<D>(a, a + n); const auto w = c::to_type<D>(s, s + n); const auto t = c::to_type<int>(a, a + n);
    return v.size() == n && v[j] == a[j] && w.size() == n && w[j] == s[j] && t.size() == n && t[j] == a[j];
}
//@ containers_equal
bool law_A01_containers_equal(SIt a, SIt b, std::size_t n, D tol) { return c::are_containers_equal(a, a + n, b, tol) == !some(n, [&](auto i) { return std::abs(a[i] - b[i]) > tol; }); }
//@ containers_equal_int
bool law_A01_containers_equal_int(II a, II b, std::size_t n) { return c::are_containers_equal(a, a + n, b) == !some(n, [&](auto i) { return a[i] != b[i]; }); }
//@ containers_equal_vec
bool law_A01_containers_equal_vector(const std::vector<D>& a, const std::vector<D>& b, D tol) {
    return c::are_containers_equal(a, b, tol) == (a.size() == b.size() && !some(a.size(), [&](auto i) { return std::abs(a[i] - b[i]) > tol; })); }
//@ matches
bool law_A01_count_matches(CIt a, CIt b, std::size_t n) { return c::count_matches(a, a + n, b) == tally(n, [&](auto i) { return a[i] == b[i]; }); }
//@ matches_value
bool law_A01_count_matches_value(CIt a, CIt b, std::size_t n, std::size_t v) { return c::count_matches_for_value(a, a + n, b, v) == tally(n, [&](auto i) { return a[i] == b[i] && b[i] == v; }); }
//@ permutation
bool law_A01_permutation(const std::vector<std::size_t>& p, const std::vector<D>& x, std::size_t j) {
    if (!(j < x.size())) return true;
    const auto r = c::permutation_from_indices(p, x);
    return r.size() == x.size() && r[j] == x[p[j]]; }
//@ permutation_t
bool lawt_A01_permutation_rejects(const std::vector<std::size_t>& p, const std::vector<D>& x) { c::permutation_from_indices(p, x); return p.size() != x.size(); }
//@ remap
bool law_A01_remap(const std::vector<std::size_t>& p, const std::vector<D>& x, std::size_t d, std::size_t i, std::size_t f) {
    if (!(i < p.size() && f < d)) return true;
    const auto r = c::remap_ranges_from_indices(p, x, d);
    return r.size() == x.size() && r[i * d + f] == x[p[i] * d + f]; }
//@ remap_t
bool lawt_A01_remap_rejects(const std::vector<std::size_t>& p, const std::vector<D>& x, std::size_t d) { c::remap_ranges_from_indices(p, x, d); return x.size() / d != p.size(); }
//@ n_samples
bool law_A01_n_samples(SIt a, std::size_t n, std::size_t d) { if (d == 0) return true; return c::get_n_samples(a, a + n * d, d) == n; }
//@ element_in
bool law_A01_element_in(CIt a, std::size_t n, std::size_t v) { const bool in = some(n, [&](auto i) { return a[i] == v; }); return c::is_element_in(a, a + n, v) == in && c::is_element_not_in(a, a + n, v) == !in; }
//@ element_in_first
bool law_A01_element_in_first(std::vector<std::pair<std::size_t, D>>::const_iterator a, std::size_t n, std::size_t v) { const bool in = some(n, [&](auto i) { return a[i].first == v; }); return c::is_element_in_first(a, a + n, v) == in && c::is_element_not_in_first(a, a + n, v) == !in; }
//@ translate
bool law_A01_translate(SIt a, SIt b, std::size_t n, std::size_t j) { if (!(j < n)) return true; const auto r = la::translate_right_range_to_origin(a, a + n, b, b + n); return r.size() == n && r[j] == b[j] - a[j]; }
//@ transpose
bool law_A01_transpose(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) {
    if (!(i < n && j < d)) return true;
    const auto [t, r, q] = la::transpose(s, s + n * d, d);
    return r == d && q == n && t.size() == n * d && t[j * n + i] == s[i * d + j]; }
//@ transpose_seq
bool law_A01_transpose_sequential(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) {
    if (!(i < n && j < d)) return true;
    const auto [t, r, q] = la::transpose_sequential(s, s + n * d, d);
    return r == d && q == n && t.size() == n * d && t[j * n + i] == s[i * d + j]; }
//@ transpose_par
bool law_A01_transpose_blocks(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) {
    if (!(i < n && j < d)) return true;
    const auto [t, r, q] = la::transpose_parallel_openmp(s, s + n * d, d);
    return r == d && q == n && t.size() == n * d && t[j * n + i] == s[i * d + j]; }
//@ tight_segment
bool law_B03_tight_segment(SIt s, std::size_t n, std::size_t d, std::size_t j) {
    if (!(0 < n && j < d)) return true;
    const auto g = ds::make_tight_segment(s, s + n * d, d, j);
    D lo = std::numeric_limits<D>::max(), hi = std::numeric_limits<D>::lowest();
    for (std::size_t i = 0; i < n; ++i) { const D x = s[i * d + j]; if (x < lo) lo = x; if (x > hi) hi = x; }
    return g.lower_bound() == lo && g.upper_bound() == hi; }
//@ tight_segment_idx
bool law_B03_tight_segment_indices(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t j) {
    if (!(0 < n && j < d)) return true;
    const auto g = ds::make_tight_segment(a, a + n, s, e, d, j);
    D lo = std::numeric_limits<D>::max(), hi = std::numeric_limits<D>::lowest();
    for (std::size_t i = 0; i < n; ++i) { const D x = s[a[i] * d + j]; if (x < lo) lo = x; if (x > hi) hi = x; }
    return g.lower_bound() == lo && g.upper_bound() == hi; }
//@ tight_bound
bool law_B03_tight_bound(SIt s, std::size_t n, std::size_t d, std::size_t j) {
    if (!(0 < n && j < d)) return true;
    const auto b = ds::make_tight_bound(s, s + n * d, d);
    D lo = std::numeric_limits<D>::max(), hi = std::numeric_limits<D>::lowest();
    for (std::size_t i = 0; i < n; ++i) { const D x = s[i * d + j]; if (x < lo) lo = x; if (x > hi) hi = x; }
    return b.n_features() == d && b.segment_at(j).lower_bound() == lo && b.segment_at(j).upper_bound() == hi && b.centroid_at(j) == (lo + hi) / 2; }
//@ tight_bound_idx
bool law_B03_tight_bound_indices(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t j) {
    if (!(0 < n && j < d)) return true;
    const auto b = ds::make_tight_bound(a, a + n, s, e, d);
    D lo = std::numeric_limits<D>::max(), hi = std::numeric_limits<D>::lowest();
    for (std::size_t i = 0; i < n; ++i) { const D x = s[a[i] * d + j]; if (x < lo) lo = x; if (x > hi) hi = x; }
    return b.n_features() == d && b.segment_at(j).lower_bound() == lo && b.segment_at(j).upper_bound() == hi && b.centroid_at(j) == (lo + hi) / 2; }
//@ tight_contains
bool law_B03_tight_segment_contains(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t j, std::size_t i) {
    if (!(i < n && j < d)) return true;
    const auto g = ds::make_tight_segment(a, a + n, s, e, d, j);
    return g.contains_value(s[a[i] * d + j]); }
