#include "prelude.hpp"
namespace st = ffcl::common::math::statistics;
template <class It> auto n_of(It a, It b) { return static_cast<std::size_t>(b - a); }
template <class F> D total(std::size_t n, F f) { D s = 0; for (std::size_t i = 0; i < n; ++i) s += f(i); return s; }
//@ mean
bool law_S01_mean(SIt s, std::size_t n, std::size_t d, std::size_t j) {
    if (!(j < d)) return true;
    const auto m = st::compute_mean_per_feature(s, s + n * d, d);
    return m.size() == d && m[j] == total(n, [&](auto i) { return s[i * d + j]; }) / n;
}
//@ mean_idx
bool law_S01_mean_indices(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t j) {
    if (!(j < d)) return true;
    const auto m = st::compute_mean_per_feature(a, a + n, s, e, d);
    return m.size() == d && m[j] == total(n, [&](auto i) { return s[a[i] * d + j]; }) / n;
}
//@ mean_mask
bool law_S01_mean_mask(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, const std::vector<std::size_t>& k, std::size_t j) {
    if (!(j < k.size())) return true;
    const auto m = st::compute_mean_per_feature(a, a + n, s, e, d, k);
    return m.size() == k.size() && m[j] == total(n, [&](auto i) { return s[a[i] * d + k[j]]; }) / n;
}
//@ var
bool law_S01_variance(SIt s, std::size_t n, std::size_t d, std::size_t j) {
    if (!(j < d)) return true;
    const auto v = st::compute_variance_per_feature(s, s + n * d, d);
    const D mean = total(n, [&](auto i) { return s[i * d + j]; }) / n;
    return v.size() == d && v[j] == total(n, [&](auto i) { const D t = s[i * d + j] - mean; return t * t; }) / (n - 1);
}
//@ var_idx
bool law_S01_variance_indices(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t j) {
    if (!(j < d)) return true;
    const auto v = st::compute_variance_per_feature(a, a + n, s, e, d);
    const D mean = total(n, [&](auto i) { return s[a[i] * d + j]; }) / n;
    return v.size() == d && v[j] == total(n, [&](auto i) { const D t = s[a[i] * d + j] - mean; return t * t; }) / (n - 1);
}
//@ var_mask
bool law_S01_variance_mask(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, const std::vector<std::size_t>& k, std::size_t j) {
    if (!(j < k.size())) return true;
    const auto v = st::compute_variance_per_feature(a, a + n, s, e, d, k);
    const D mean = total(n, [&](auto i) { return s[a[i] * d + k[j]]; }) / n;
    return v.size() == k.size() && v[j] == total(n, [&](auto i) { const D t = s[a[i] * d + k[j]] - mean; return t * t; }) / (n - 1);
}
//@ argmax_var
bool law_S01_argmax_variance(SIt s, std::size_t n, std::size_t d) {
    std::vector<D> v(d);
    for (std::size_t j = 0; j < d; ++j) {
        const D mean = total(n, [&](auto i) { return s[i * d + j]; }) / n;
        v[j] = total(n, [&](auto i) { const D t = s[i * d + j] - mean; return t * t; });
    }
    return st::argmax_variance_per_feature(s, s + n * d, d) == static_cast<std::size_t>(std::max_element(v.begin(), v.end()) - v.begin());
}
//@ argmax_var_idx
bool law_S01_argmax_variance_indices(CIt a, std::size_t n, SIt s, SIt e, std::size_t d) {
    std::vector<D> v(d);
    for (std::size_t j = 0; j < d; ++j) {
        const D mean = total(n, [&](auto i) { return s[a[i] * d + j]; }) / n;
        v[j] = total(n, [&](auto i) { const D t = s[a[i] * d + j] - mean; return t * t; });
    }
    return st::argmax_variance_per_feature(a, a + n, s, e, d) == static_cast<std::size_t>(std::max_element(v.begin(), v.end()) - v.begin());
}
//@ argmax_var_mask
bool law_S01_argmax_variance_mask(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, const std::vector<std::size_t>& k) {
    std::vector<D> v(k.size());
    for (std::size_t j = 0; j < k.size(); ++j) {
        const D mean = total(n, [&](auto i) { return s[a[i] * d + k[j]]; }) / n;
        v[j] = total(n, [&](auto i) { const D t = s[a[i] * d + k[j]] - mean; return t * t; });
    }
    return st::argmax_variance_per_feature(a, a + n, s, e, d, k) == k[std::max_element(v.begin(), v.end()) - v.begin()];
}
//@ variance1
bool law_S01_variance_range(SIt s, std::size_t n) {
    if (!(n > 1)) return true;
    const D sum = total(n, [&](auto i) { return s[i]; }), sq = total(n, [&](auto i) { return s[i] * s[i]; });
    return st::compute_variance(s, s + n) == (sq - sum * sum / n) / (n - 1);
}
//@ normalize
bool law_S01_normalize(SIt s, std::size_t n, std::size_t j) {
    if (!(j < n)) return true;
    const auto r = st::normalize(s, s + n);
    return r.size() == n && r[j] == s[j] / total(n, [&](auto i) { return s[i]; });
}
//@ normalize_mm
bool law_S01_normalize_min_max(SIt s, std::size_t n, std::size_t j) {
    if (!(j < n)) return true;
    const auto r = st::normalize_min_max(s, s + n);
    const auto p = std::minmax_element(s, s + n);
    const D lo = *p.first, hi = *p.second;
    return r.size() == n && (lo == hi ? r[j] == 1.0 / n : r[j] == 1 - (s[j] - lo) / (hi - lo));
}
//@ min_inplace
bool law_S01_min_inplace(std::vector<D>& a, const std::vector<D>& b, std::size_t j) {
    if (!(j < a.size())) return true;
    const D x = a[j], y = b[j]; const std::size_t n = a.size();
    st::min_container_inplace_left(a, b);
    return a[j] == (y < x ? y : x) && a.size() == n;
}
//@ argmin
bool law_S01_argmin(CIt a, CIt b) { return st::argmin(a, b) == static_cast<std::size_t>(std::min_element(a, b) - a) && st::argmax(a, b) == static_cast<std::size_t>(std::max_element(a, b) - a); }
//@ minpair
bool law_S01_min_pair(SIt a, SIt b) { const auto p = st::get_min_index_value_pair(a, b); const auto q = st::get_max_index_value_pair(a, b);
    return p.first == static_cast<std::size_t>(std::min_element(a, b) - a) && p.second == *std::min_element(a, b) && q.first == static_cast<std::size_t>(std::max_element(a, b) - a) && q.second == *std::max_element(a, b); }
//@ second
bool law_S01_second_max_restores(std::vector<D>::iterator a, std::size_t n, std::size_t j) {
    const D x = a[j];
    const auto p = st::get_second_max_index_value_pair(a, a + n);
    return a[j] == x;
}
//@ second_value
bool law_S01_second_max(std::vector<D>::iterator a, std::size_t n, std::size_t j) {
    if (!(j < n) || n < 2) return true;
    const auto p = st::get_second_max_index_value_pair(a, a + n);
    const auto m = static_cast<std::size_t>(std::max_element(a, a + n) - a);
    // the largest of the others
    return p.first < n && p.first != m && p.second == a[p.first] && (j == m || !(a[p.first] < a[j]));
}
//@ second_value_one
bool law_S01_second_max_single(std::vector<D>::iterator a) {
    const auto p = st::get_second_max_index_value_pair(a, a + 1);
    return p.first == 0 && p.second == a[0];
}
//@ nth
bool law_S01_nth_smallest(SIt a, std::size_t n) {
    // among four values
    if (n < 1 || n > 4) return true;
    const auto p = st::find_nth_smallest_index_and_element(a, a + 4, n);
    std::size_t below = 0, upto = 0;
    for (std::size_t i = 0; i < 4; ++i) { below += a[i] < p.second; upto += !(p.second < a[i]); }
    return p.first < 4 && a[p.first] == p.second && below < n && !(upto < n);
}
