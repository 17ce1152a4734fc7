#include "prelude.hpp"
namespace r = ffcl::common::math::random;
template <class F> bool some(std::size_t n, F f) { bool x = false; for (std::size_t i = 0; i < n; ++i) x = x || f(i); return x; }
//@ uniform_int
bool law_R01_uniform_int(std::size_t a, std::size_t b) { if (b < a) return true; r::uniform_distribution<std::size_t> u(a, b); const auto x = u(); return a <= x && x <= b; }
//@ uniform_real
bool law_R01_uniform_real(D a, D b) { if (b < a) return true; r::uniform_distribution<D> u(a, b); const auto x = u(); return a <= x && x <= b; }
//@ sample
bool law_R01_random_sample(SIt s, std::size_t n, std::size_t d) {
    if (n == 0 || d == 0) return true;
    const auto v = r::select_random_sample(s, s + n * d, d);
    return v.size() == d && some(n, [&](auto i) { return !some(d, [&](auto f) { return v[f] != s[i * d + f]; }); });
}
//@ n_elements
bool law_R01_n_elements(CIt a, std::size_t n, std::size_t m) {
    if (!(m <= n)) return true;
    const auto v = r::select_n_elements(a, a + n, m);
    return v.size() == m;
}
//@ interval
bool law_R01_interval(std::size_t m, std::size_t a, std::size_t b) {
    if (!(a + m <= b)) return true;
    const auto v = r::make_n_elements_from_interval<std::size_t>(m, {a, b});
    return v.size() == m;
}
//@ n_random
bool law_R01_n_random_samples(SIt s, std::size_t n, std::size_t d, std::size_t m) {
    if (d == 0) return true;
    const auto v = r::select_n_random_samples(s, s + n * d, d, m);
    return v.size() == (m < n ? m : n) * d;
}
//@ n_random_idx
bool law_R01_n_random_samples_from_indices(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t m) {
    if (d == 0) return true;
    const auto v = r::select_n_random_samples_from_indices(a, a + n, s, e, d, m);
    return v.size() == (m < n ? m : n) * d;
}
//@ spatial
bool law_R01_spatial_uniform(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t c, std::size_t f) {
    if (!(c < m && f < d && 0 < n)) return true;
    const auto v = r::init_spatial_uniform(s, s + n * d, d, m);
    return v.size() == m * d && some(n, [&](auto i) { return s[i * d + f] <= v[c * d + f]; }) && some(n, [&](auto i) { return s[i * d + f] >= v[c * d + f]; });
}
using V = std::vector<D>;
using Uniform = r::uniform_distribution<D>;
static V made;
static void prepared(Uniform& u, D a, D b) { ghost(made) += uf(78, a, b); }
template <class F> D most(std::size_t n, F f) { D x = f(0); for (std::size_t i = 0; i < n; ++i) { const D y = f(i); if (x < y) x = y; } return x; }
//! R01_ranges ffcl::common::math::random::uniform_distribution::uniform_distribution -> prepared
//@ spatial_ranges
bool law_R01_ranges_of_spatial_uniform(SIt s, std::size_t n, std::size_t d) {
    if (n == 0 || d == 0) return true;
    ghost(made) = 0;
    const auto v = r::init_spatial_uniform(s, s + n * d, d, 1);
    D want = 0;
    for (std::size_t f = 0; f < d; ++f) want += uf(78, -most(n, [&](auto i) { return -s[i * d + f]; }), most(n, [&](auto i) { return s[i * d + f]; }));
    return v.size() == d && ghost(made) == want;
}
//@ init_uniform
bool law_R01_init_uniform(SIt s, std::size_t n, std::size_t d, std::size_t m) {
    if (d == 0 || !(m <= n)) return true;
    const auto v = r::init_uniform(s, s + n * d, d, m);
    return v.size() == m * d;
}
//@ init_uniform_rows
bool law_R01_init_uniform_rows(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t c) {
    if (d == 0 || !(m <= n) || !(c < m)) return true;
    const auto v = r::init_uniform(s, s + n * d, d, m);
    return some(n, [&](auto i) { return !some(d, [&](auto f) { return v[c * d + f] != s[i * d + f]; }); });
}
//@ alias_reject
bool lawt_R02_alias_rejects(const std::vector<D>& w) { r::VosesAliasMethod<D> v(w); return w.size() == 0; }
//@ n_elements_from
bool law_R01_n_elements_from_range(CIt a, std::size_t n, std::size_t m, std::size_t i) {
    if (!(m <= n) || !(i < m)) return true;
    const auto v = r::select_n_elements(a, a + n, m);
    return some(n, [&](auto j) { return v[i] == a[j]; });
}
//@ interval_in
bool law_R01_interval_members(std::size_t m, std::size_t a, std::size_t b, std::size_t i) {
    if (!(a + m <= b) || !(i < m)) return true;
    const auto v = r::make_n_elements_from_interval<std::size_t>(m, {a, b});
    return a <= v[i] && v[i] < b;
}
//@ interval_distinct
bool law_R01_interval_distinct(std::size_t m, std::size_t a, std::size_t b, std::size_t i, std::size_t j) {
    if (!(a + m <= b) || !(i < m) || !(j < m) || i == j) return true;
    const auto v = r::make_n_elements_from_interval<std::size_t>(m, {a, b});
    return v[i] != v[j];
}
//@ n_random_rows
bool law_R01_n_random_samples_rows(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t c) {
    if (d == 0 || !(c < std::min(m, n))) return true;
    const auto v = r::select_n_random_samples(s, s + n * d, d, m);
    return some(n, [&](auto i) { return !some(d, [&](auto f) { return v[c * d + f] != s[i * d + f]; }); });
}
//@ n_random_idx_rows
bool law_R01_n_random_samples_from_indices_rows(CIt a, std::size_t n, SIt s, SIt e, std::size_t d, std::size_t m, std::size_t c) {
    if (d == 0 || !(c < std::min(m, n))) return true;
    const auto v = r::select_n_random_samples_from_indices(a, a + n, s, e, d, m);
    return some(n, [&](auto i) { return !some(d, [&](auto f) { return v[c * d + f] != s[a[i] * d + f]; }); });
}

// every admissible value of a draw: the draws of the laws below give the wanted value whenever their interval contains it
static std::size_t few(D x, std::size_t n) { return std::size_t(x < 0 ? -x : x) % n; }
static std::size_t all() { return 3 + few(uf(70), 3); }
static std::size_t want(std::size_t k) { return few(uf(71, k), all()); }
static std::size_t wanted(std::size_t a, std::size_t b) { const auto w = want(0); return w < a ? a : b < w ? b : w; }
//! R01_reach draw -> wanted
//@ reach_sample
bool law_R01_reach_sample(SIt s, std::size_t d) {
    if (d == 0) return true;
    const auto v = r::select_random_sample(s, s + all() * d, d);
    return v.size() == d && !some(d, [&](auto f) { return v[f] != s[want(0) * d + f]; });
}
//@ reach_element
bool law_R01_reach_element(CIt a) { return r::select_n_elements(a, a + all(), 1)[0] == a[want(0)]; }
//@ reach_interval
bool law_R01_reach_interval(std::size_t a) { return r::make_n_elements_from_interval<std::size_t>(1, {a, a + all()})[0] == a + want(0); }
struct Plan { std::size_t first, second, n; };
static Plan plan;
static std::size_t planned(std::size_t a, std::size_t b) { const auto w = plan.n == 0 ? plan.first : plan.second; ++plan.n; return w < a ? a : b < w ? b : w; }
//! R01_pairs draw -> planned
//@ pairs_element
bool law_R01_pairs_element(CIt a) {
    const auto n = all(), p = want(1), q = want(2);
    if (p == q) return true;
    std::size_t c = 0;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
        plan.first = i; plan.second = j; plan.n = 0;
        const auto v = r::select_n_elements(a, a + n, 2);
        if (v[0] == a[p] && v[1] == a[q]) ++c;
    }
    return c != 0;
}
// the alias table: column i keeps its own index with probability p[i] and gives the rest to its alias
static D weight(std::size_t k) { const D x = uf(72, k); return std::size_t(x < 0 ? -x : x) % 7; }
//@ alias_table
bool law_R02_alias_table(std::size_t k) {
    const auto n = 1 + few(uf(73), 5);
    std::vector<D> w(n);
    D t = 0, m = 0;
    for (std::size_t i = 0; i < n; ++i) w[i] = weight(i);
    for (std::size_t i = 0; i < n; ++i) t += weight(i);
    if (t == 0) return true;
    k %= n;
    const r::VosesAliasMethod<D> v(w);
    for (std::size_t i = 0; i < n; ++i) m += (i == k ? v.probabilities_[i] : 0) + (v.probabilities_[i] < 1 && v.alias_[i] == k ? 1 - v.probabilities_[i] : 0);
    return v.n_weights_ == n && m * t == n * weight(k);
}
struct Coin { D first, second; std::size_t n; };
static Coin coin;
static D tossed(D a, D b) { const D w = coin.n == 0 ? coin.first : coin.second; ++coin.n; return w < a ? a : b < w ? b : w; }
static void tables(r::VosesAliasMethod<D>& v, const std::vector<D>& w) {
    for (std::size_t i = 0; i < w.size(); ++i) { v.probabilities_[i] = few(uf(76, i), 16) / D(16); v.alias_[i] = few(uf(77, i), w.size()); }
}
//! R02_sample draw -> tossed
//! R02_sample ffcl::common::math::random::VosesAliasMethod::init -> tables
//@ alias_sample
bool law_R02_sample() {
    const auto n = 1 + few(uf(73), 5);
    r::VosesAliasMethod<D> v(std::vector<D>(n, 1));
    coin.first = few(uf(74), 16) / D(16); coin.second = few(uf(75), 16) / D(16); coin.n = 0;
    const auto a = std::size_t(n * coin.first), b = std::size_t(n * coin.second);
    const auto x = v.sample();
    coin.n = 0;
    return v() == x && (x == (coin.second < v.probabilities_[a] ? a : v.alias_[a]) || x == (coin.first < v.probabilities_[b] ? b : v.alias_[b]));
}
