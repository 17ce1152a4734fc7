#include "prelude.hpp"
namespace h = ffcl::common::math::heuristics;
using I = std::vector<int>::const_iterator;
using U = std::vector<unsigned>::const_iterator;
using Z = std::vector<std::size_t>::const_iterator;
template <class It> auto n_of(It a, It b) { return static_cast<std::size_t>(b - a); }
//@ sqeuclid
bool law_M01_squared_euclidean(SIt a, SIt b, SIt p, SIt q) {
    D s = 0;
    for (std::size_t i = 0; i < n_of(a, b); ++i) s += (a[i] - p[i]) * (a[i] - p[i]);
    return h::squared_euclidean_distance(a, b, p, q) == s;
}
//@ euclid
bool law_M01_euclidean(SIt a, SIt b, SIt p, SIt q) {
    D s = 0;
    for (std::size_t i = 0; i < n_of(a, b); ++i) s += (a[i] - p[i]) * (a[i] - p[i]);
    return h::euclidean_distance(a, b, p, q) == std::sqrt(s);
}
//@ euclid_sym
bool law_M01_euclidean_symmetric(SIt a, SIt p, std::size_t n) {
    return h::euclidean_distance(a, a + n, p, p + n) == h::euclidean_distance(p, p + n, a, a + n);
}
//@ euclid_self
bool law_M01_euclidean_self(SIt a, std::size_t n) { return h::squared_euclidean_distance(a, a + n, a, a + n) == 0; }
//@ origin
bool law_M01_from_origin(SIt a, SIt b) {
    D s = 0, m = 0;
    for (std::size_t i = 0; i < n_of(a, b); ++i) s += a[i] * a[i];
    for (std::size_t i = 0; i < n_of(a, b); ++i) m += std::abs(a[i]);
    return h::squared_euclidean_distance_from_origin(a, b) == s && h::euclidean_distance_from_origin(a, b) == std::sqrt(s) && h::manhattan_distance_from_origin(a, b) == m;
}
//@ manh
bool law_M01_manhattan(SIt a, SIt b, SIt p, SIt q) {
    D s = 0;
    for (std::size_t i = 0; i < n_of(a, b); ++i) s += std::abs(a[i] - p[i]);
    return h::manhattan_distance(a, b, p, q) == s;
}
//@ manh_int
bool law_M01_manhattan_int(I a, I b, I p, I q) {
    int s = 0;
    for (std::size_t i = 0; i < n_of(a, b); ++i) s += std::abs(a[i] - p[i]);
    return h::manhattan_distance(a, b, p, q) == s;
}
//@ manh_uns
bool law_M01_manhattan_unsigned(U a, U b, U p, U q) {
    unsigned s = 0;
    for (std::size_t i = 0; i < n_of(a, b); ++i) s += a[i] > p[i] ? a[i] - p[i] : p[i] - a[i];
    return h::unsigned_manhattan_distance(a, b, p, q) == s;
}
//@ cosine
bool law_M01_cosine(SIt a, SIt p, std::size_t n) {
    D d = 0, x = 0, y = 0;
    for (std::size_t i = 0; i < n; ++i) { d += a[i] * p[i]; x += a[i] * a[i]; y += p[i] * p[i]; }
    const D m = std::sqrt(x) * std::sqrt(y);
    if (!(m != 0)) return true;
    return h::cosine_similarity(a, a + n, p, p + n) == d / m;
}
//@ auto_float
bool law_M01_auto_float(SIt a, SIt b, SIt p, SIt q) { return h::auto_distance(a, b, p, q) == h::euclidean_distance(a, b, p, q); }
//@ auto_int
bool law_M01_auto_int(I a, I b, I p, I q) { return h::auto_distance(a, b, p, q) == h::manhattan_distance(a, b, p, q); }
//@ auto_uns
bool law_M01_auto_unsigned(U a, U b, U p, U q) { return h::auto_distance(a, b, p, q) == h::unsigned_manhattan_distance(a, b, p, q); }
//@ auto_origin
bool law_M01_auto_from_origin(SIt a, SIt b, I c, I d) { return h::auto_distance_from_origin(a, b) == h::euclidean_distance_from_origin(a, b) && h::auto_distance_from_origin(c, d) == h::manhattan_distance_from_origin(c, d); }
//@ levenshtein
template <std::size_t N, std::size_t M> int edits(I a, I b) {
    if constexpr (N == 0) return M;
    else if constexpr (M == 0) return N;
    else {
        const int x = edits<N - 1, M>(a + 1, b) + 1, y = edits<N, M - 1>(a, b + 1) + 1, z = edits<N - 1, M - 1>(a + 1, b + 1) + (a[0] == b[0] ? 0 : 1);
        return std::min(std::min(x, y), z);
    }
}
//@ levenshtein0
bool law_M01_edit_distance0(I a, I b) { return h::levenshtein_distance(a, a, b, b + 2) == 2; }
//@ levenshtein1
bool law_M01_edit_distance1(I a, I b) { return h::levenshtein_distance(a, a + 1, b, b + 1) == edits<1, 1>(a, b); }
//@ levenshtein2
bool law_M01_edit_distance2(I a, I b) { return h::levenshtein_distance(a, a + 1, b, b + 2) == edits<1, 2>(a, b); }
//@ levenshtein3
bool law_M01_edit_distance3(I a, I b) { return h::levenshtein_distance(a, a + 2, b, b + 2) == edits<2, 2>(a, b); }
//@ levenshtein4
bool law_M01_edit_distance4(I a, I b) { return h::levenshtein_distance(a, a + 2, b, b + 1) == edits<2, 1>(a, b) && h::levenshtein_distance(a, a + 2, b, b) == 2; }
//@ levenshtein5
bool law_M01_edit_distance5(I a, I b) { return h::levenshtein_distance(a, a + 2, b, b + 3) == edits<2, 3>(a, b); }
