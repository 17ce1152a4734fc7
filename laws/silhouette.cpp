#include "prelude.hpp"
namespace h = ffcl::common::math::heuristics;
template <class F> D total(std::size_t n, F f) { D s = 0; for (std::size_t i = 0; i < n; ++i) s += f(i); return s; }
template <class F> std::size_t tally(std::size_t n, F f) { std::size_t s = 0; for (std::size_t i = 0; i < n; ++i) if (f(i)) ++s; return s; }
static D dist(SIt s, std::size_t d, std::size_t i, std::size_t j) { return h::auto_distance(s + i * d, s + i * d + d, s + j * d, s + j * d + d); }
//@ sizes
bool law_H01_sizes(CIt l, std::size_t n, std::size_t c) {
    if (n == 0) return true;
    const std::size_t m = 1 + *std::max_element(l, l + n);
    const auto z = h::get_cluster_sizes(l, l + n);
    return z.size() == m && (!(c < m) || z[c] == tally(n, [&](auto i) { return l[i] == c; }));
}
//@ cohesion
bool law_H01_cohesion(SIt s, std::size_t n, std::size_t d, CIt l, std::size_t i) {
    if (d == 0 || !(i < n)) return true;
    const auto v = h::cohesion(s, s + n * d, d, l, l + n);
    const auto mine = tally(n, [&](auto j) { return l[j] == l[i]; });
    const D sum = total(n, [&](auto j) { return l[i] == l[j] && i != j ? dist(s, d, i, j) : D(0); });
    return v.size() == n && v[i] == (mine > 1 ? sum / (mine - 1) : D(0));
}
//@ separation
bool law_H01_separation(SIt s, std::size_t n, std::size_t d, CIt l, std::size_t i) {
    if (d == 0 || !(i < n)) return true;
    const auto v = h::separation(s, s + n * d, d, l, l + n);
    const std::size_t m = 1 + *std::max_element(l, l + n);
    D best = std::numeric_limits<D>::infinity();
    for (std::size_t c = 0; c < m; ++c) {
        const auto size = tally(n, [&](auto j) { return l[j] == c; });
        const D sum = total(n, [&](auto j) { return l[j] == c ? dist(s, d, i, j) : D(0); });
        const D mean = c == l[i] || size == 0 ? std::numeric_limits<D>::infinity() : sum / size;
        if (mean < best) best = mean;
    }
    return v.size() == n && v[i] == best;
}
//@ silhouette
bool law_H01_silhouette(SIt s, std::size_t n, std::size_t d, CIt l, std::size_t i) {
    if (d == 0 || !(i < n)) return true;
    const auto a = h::cohesion(s, s + n * d, d, l, l + n);
    const auto b = h::separation(s, s + n * d, d, l, l + n);
    const auto v = h::silhouette(s, s + n * d, d, l, l + n);
    return v.size() == n && v[i] == (tally(n, [&](auto j) { return l[j] == l[i]; }) == 1 ? 0 : a[i] < b[i] ? 1 - a[i] / b[i] : a[i] > b[i] ? b[i] / a[i] - 1 : 0);
}
//@ average
bool law_H01_average(SIt s, std::size_t n) { if (n == 0) return true; return h::get_average_silhouette(s, s + n) == total(n, [&](auto i) { return s[i]; }) / n; }
