#include "prelude.hpp"
using V  = std::vector<D>;
using VI = std::vector<std::size_t>;
using O  = ffcl::KMeans<D>::Options;
using PM = ffcl::datastruct::PairwiseDistanceMatrix<SIt>;
using K1 = ffcl::KMedoids<D, true>;
using K0 = ffcl::KMedoids<D, false>;
static std::size_t state(D from, std::size_t t) { const D x = uf(1, from, t); return std::size_t(x < 0 ? -x : x) % 3; }
template <class F> bool some(std::size_t n, F f) { bool x = false; for (std::size_t i = 0; i < n; ++i) x = x || f(i); return x; }
// algorithms that only count: the t-th step from `from` leads to a state named by (from, t)
template <class I>
struct Walk {
    Walk(const std::tuple<I, I, std::size_t>& s, const V& c) : from_(c[0] + uf(4, std::get<0>(s), std::get<1>(s), std::get<2>(s))), t_(0) {}
    V step() { ++t_; return V(1, state(from_, t_)); }
    D total_deviation() const { return uf(2, from_, t_); }
    D from_;
    std::size_t t_;
};
template <class I>
struct Hop {
    Hop(const std::tuple<I, I, std::size_t>& s, const VI& c) : from_(c[0] + uf(4, std::get<0>(s), std::get<1>(s), std::get<2>(s))), t_(0) {}
    Hop(const ffcl::datastruct::PairwiseDistanceMatrix<I>& p, const VI& c) : from_(c[0] + uf(4, p.n_rows(), p(1, 0))), t_(0) {}
    Hop(const Hop&) = delete;
    VI step() { ++t_; return VI(1, state(from_, t_)); }
    D total_deviation() const { return uf(2, from_, t_); }
    D from_;
    std::size_t t_;
};
//@ max_iter
bool law_K05_max_iter(SIt s, std::size_t n, std::size_t d, D c, std::size_t m) {
    if (m == 0) return true;
    ffcl::KMeans<D> k(1, V(1, c), O().max_iter(m).early_stopping(false));
    const auto r = k.template fit<Walk>(s, s + n * d, d);
    const D from = c + uf(4, s, s + n * d, d);
    return r.size() == 1 && r[0] == state(from, m) && k.centroids_.size() == 1 && k.centroids_[0] == r[0];
}
//@ early
bool law_K05_early(SIt s, std::size_t n, std::size_t d, D c, std::size_t m, std::size_t p, D tol) {
    if (m == 0 || tol < 0) return true;
    ffcl::KMeans<D> k(1, V(1, c), O().max_iter(m).patience(p).tolerance(tol));
    const auto r = k.template fit<Walk>(s, s + n * d, d);
    const D from = c + uf(4, s, s + n * d, d);
    std::size_t t = 1, run = 0;
    while (t < m && run <= p) { ++t; run = std::abs(D(state(from, t)) - D(state(from, t - 1))) <= tol ? run + 1 : 0; }
    return r.size() == 1 && r[0] == state(from, t);
}
//@ best
bool law_K05_best(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t w) {
    if (m == 0) return true;
    const std::size_t q = 2;
    ffcl::KMeans<D> k(w, O().max_iter(m).early_stopping(false).n_init(q));
    std::size_t i = 0;
    const auto r = k.template fit<Walk>(s, s + n * d, d, [&](const SIt& a, const SIt& b, std::size_t e, std::size_t f) { ++i; return V(1, uf(3, i, a, b, e, f)); });
    auto from = [&](std::size_t j) { return uf(3, j, s, s + n * d, d, w) + uf(4, s, s + n * d, d); };
    const bool second = uf(2, from(2), m) < uf(2, from(1), m);
    return r.size() == 1 && (second ? r[0] == state(from(2), m) : r[0] == state(from(1), m) || (uf(2, from(1), m) == uf(2, from(2), m) && r[0] == state(from(2), m)));
}
//@ once
bool law_K05_once(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t w) {
    if (m == 0) return true;
    ffcl::KMeans<D> k(w, O().max_iter(m).early_stopping(false).n_init(1));
    std::size_t i = 0;
    const auto r = k.template fit<Walk>(s, s + n * d, d, [&](const SIt& a, const SIt& b, std::size_t e, std::size_t f) { ++i; return V(1, uf(3, i, a, b, e, f)); });
    return i == 1 && r.size() == 1 && r[0] == state(uf(3, 1, s, s + n * d, d, w) + uf(4, s, s + n * d, d), m);
}
//@ medoids_max_iter
bool law_K05_medoids_max_iter(SIt s, std::size_t n, std::size_t d, std::size_t c, std::size_t m) {
    if (m == 0) return true;
    K0 k(1, VI(1, c), K0::Options().max_iter(m).early_stopping(false));
    const auto r = k.template fit<Hop>(s, s + n * d, d);
    const D from = c + uf(4, s, s + n * d, d);
    return r.size() == 1 && r[0] == state(from, m) && k.medoids_.size() == 1 && k.medoids_[0] == r[0];
}
//@ medoids_early
bool law_K05_medoids_early(SIt s, std::size_t n, std::size_t d, std::size_t c, std::size_t m, std::size_t p) {
    if (m == 0) return true;
    K0 k(1, VI(1, c), K0::Options().max_iter(m).patience(p));
    const auto r = k.template fit<Hop>(s, s + n * d, d);
    const D from = c + uf(4, s, s + n * d, d);
    std::size_t t = 1, run = 0;
    while (t < m && run <= p) { ++t; run = state(from, t) == state(from, t - 1) ? run + 1 : 0; }
    return r.size() == 1 && r[0] == state(from, t);
}
//@ medoids_matrix_early
bool law_K05_medoids_matrix_early(const PM& x, std::size_t c, std::size_t m, std::size_t p) {
    if (m == 0) return true;
    K1 k(1, VI(1, c), K1::Options().max_iter(m).patience(p));
    const auto r = k.template fit<Hop>(x);
    const D from = c + uf(4, x.n_rows(), x(1, 0));
    std::size_t t = 1, run = 0;
    while (t < m && run <= p) { ++t; run = state(from, t) == state(from, t - 1) ? run + 1 : 0; }
    return r.size() == 1 && r[0] == state(from, t) && k.medoids_.size() == 1 && k.medoids_[0] == r[0];
}
//@ medoids_matrix_max_iter
bool law_K05_medoids_matrix_max_iter(const PM& x, std::size_t c, std::size_t m) {
    if (m == 0) return true;
    K1 k(1, VI(1, c), K1::Options().max_iter(m).early_stopping(false));
    const auto r = k.template fit<Hop>(x);
    return r.size() == 1 && r[0] == state(c + uf(4, x.n_rows(), x(1, 0)), m);
}
//@ medoids_precomputed
bool law_K05_medoids_precomputed(SIt s, std::size_t n, std::size_t d, std::size_t c, std::size_t m) {
    if (m == 0 || d == 0 || n < 2) return true;
    K1 k(1, VI(1, c), K1::Options().max_iter(m).early_stopping(false));
    const auto r = k.template fit<Hop>(s, s + n * d, d);
    const D from = c + uf(4, n, ffcl::common::math::heuristics::auto_distance(s + d, s + 2 * d, s, s + d));
    return r.size() == 1 && r[0] == state(from, m);
}
// the j-th draw of k indices below n
static std::size_t drawn(D j, std::size_t k, std::size_t lo, std::size_t hi) { return std::size_t(uf(3, j, k, lo, hi)); }
static VI made;
VI draw(std::size_t k, const std::pair<std::size_t, std::size_t>& r) { ghost(made) += 1; return VI(1, drawn(ghost(made), k, r.first, r.second)); }
#define BEST \
    const bool second = uf(2, from(2), m) < uf(2, from(1), m); \
    auto end = [&](std::size_t j) { return state(from(j), m); }; \
    return r.size() == 1 && (second ? r[0] == end(2) : r[0] == end(1) || (uf(2, from(1), m) == uf(2, from(2), m) && r[0] == end(2)));
//@ medoids_best
//! K05_medoids_best ffcl::common::math::random::make_n_elements_from_interval -> draw
bool law_K05_medoids_best(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t w) {
    if (m == 0 || d == 0) return true;
    K0 k(w, K0::Options().max_iter(m).early_stopping(false).n_init(2));
    ghost(made) = 0;
    const auto r = k.template fit<Hop>(s, s + n * d, d);
    auto from = [&](std::size_t j) { return drawn(j, w, 0, n) + uf(4, s, s + n * d, d); };
    BEST
}
//@ medoids_once
//! K05_medoids_once ffcl::common::math::random::make_n_elements_from_interval -> draw
bool law_K05_medoids_once(SIt s, std::size_t n, std::size_t d, std::size_t m, std::size_t w) {
    if (m == 0 || d == 0) return true;
    K0 k(w, K0::Options().max_iter(m).early_stopping(false).n_init(1));
    ghost(made) = 0;
    const auto r = k.template fit<Hop>(s, s + n * d, d);
    return ghost(made) == 1 && r.size() == 1 && r[0] == state(drawn(1, w, 0, n) + uf(4, s, s + n * d, d), m);
}
//@ medoids_matrix_best
//! K05_medoids_matrix_best ffcl::common::math::random::make_n_elements_from_interval -> draw
bool law_K05_medoids_matrix_best(const PM& x, std::size_t m, std::size_t w) {
    if (m == 0) return true;
    K1 k(w, K1::Options().max_iter(m).early_stopping(false).n_init(2));
    ghost(made) = 0;
    const auto r = k.template fit<Hop>(x);
    auto from = [&](std::size_t j) { return drawn(j, w, 0, x.n_rows()) + uf(4, x.n_rows(), x(1, 0)); };
    BEST
}
//@ options
bool law_K05_options(std::size_t a, std::size_t b, std::size_t c, D t, bool e, std::size_t n) {
    const auto o = O().max_iter(a).patience(b).n_init(c).tolerance(t).early_stopping(e);
    ffcl::KMeans<D> k(n), q(n, o);
    const auto& z = k.set_options(o);
    return &z == &k && k.n_centroids_ == n && q.n_centroids_ == n && k.options_.max_iter_ == a && k.options_.patience_ == b && k.options_.n_init_ == c && k.options_.tolerance_ == t && k.options_.early_stopping_ == e &&
           q.options_.max_iter_ == a && q.options_.patience_ == b && q.options_.n_init_ == c && q.options_.tolerance_ == t && q.options_.early_stopping_ == e;
}
//@ medoids_options
bool law_K05_medoids_options(std::size_t a, std::size_t b, std::size_t c, bool e, std::size_t n) {
    const auto o = K1::Options().max_iter(a).patience(b).n_init(c).early_stopping(e);
    K1 k(n), q(n, o);
    const auto& z = k.set_options(o);
    return &z == &k && k.n_medoids_ == n && q.n_medoids_ == n && k.options_.max_iter_ == a && k.options_.patience_ == b && k.options_.n_init_ == c && k.options_.early_stopping_ == e &&
           q.options_.max_iter_ == a && q.options_.patience_ == b && q.options_.n_init_ == c && q.options_.early_stopping_ == e;
}
