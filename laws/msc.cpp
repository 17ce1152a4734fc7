#include "prelude.hpp"
namespace h = ffcl::common::math::heuristics;
template <class F> bool some(std::size_t n, F f) { bool x = false; for (std::size_t i = 0; i < n; ++i) x = x || f(i); return x; }
template <class F> D total(std::size_t n, F f) { D s = 0; for (std::size_t i = 0; i < n; ++i) s += f(i); return s; }
template <class F> D least(std::size_t n, F f) { D s = std::numeric_limits<D>::infinity(); for (std::size_t i = 0; i < n; ++i) { const D x = f(i); if (x < s) s = x; } return s; }
using V   = std::vector<D>;
using VI  = std::vector<std::size_t>;
using PM  = ffcl::datastruct::PairwiseDistanceMatrix<SIt>;
using MSC = ffcl::FasterMSC<SIt>;
static D dist(SIt s, std::size_t d, std::size_t i, std::size_t j) { return h::auto_distance(s + i * d, s + i * d + d, s + j * d, s + j * d + d); }
static D ratio(D a, D b) { return ffcl::common::division(a, b); }
static D gap(D x) { return x < 0 ? -x : x; }
#define PRE if (d == 0 || !(i < n) || some(m.size(), [&](auto j) { return !(m[j] < n); })) return true
#define PREM if (!(i < p.n_rows()) || some(m.size(), [&](auto j) { return !(m[j] < p.n_rows()); })) return true
//@ tables
#define TABLES(N) \
    const auto& b = *f.buffers_ptr_; \
    const auto k = m.size(); \
    const auto x = b.samples_to_nearest_medoid_indices_[i], y = b.samples_to_second_nearest_medoid_indices_[i], z = b.samples_to_third_nearest_medoid_indices_[i]; \
    return f.n_samples_ == N && x < k && y < k && z < k && x != y && x != z && y != z && b.samples_to_nearest_medoid_distances_[i] == e(x, i) && b.samples_to_second_nearest_medoid_distances_[i] == e(y, i) && b.samples_to_third_nearest_medoid_distances_[i] == e(z, i) && \
           !some(k, [&](auto j) { return e(j, i) < e(x, i) || (j != x && e(j, i) < e(y, i)) || (j != x && j != y && e(j, i) < e(z, i)); });
bool law_D03_tables(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    if (m.size() < 3) return true;
    PRE;
    const MSC f(std::make_tuple(s, s + n * d, d), m, D(0));
    auto e = [&](std::size_t j, std::size_t o) { return dist(s, d, m[j], o); };
    TABLES(n)
}
//@ tables_matrix
bool law_D03_tables_matrix(const PM& p, const VI& m, std::size_t i) {
    if (m.size() < 3) return true;
    PREM;
    const MSC f(p, m, D(0));
    auto e = [&](std::size_t j, std::size_t o) { return p(m[j], o); };
    TABLES(p.n_rows())
}
//@ initial
bool law_D03_initial_loss(const PM& p, const VI& m) {
    if (m.size() < 2) return true;
    const MSC f(p, m);
    const auto& b = *f.buffers_ptr_;
    return f.total_deviation() == total(p.n_rows(), [&](auto i) { return ratio(b.samples_to_nearest_medoid_distances_[i], b.samples_to_second_nearest_medoid_distances_[i]); });
}
//@ initial_data
bool law_D03_initial_loss_data(SIt s, std::size_t n, std::size_t d, const VI& m) {
    if (d == 0 || m.size() < 2) return true;
    const MSC f(std::make_tuple(s, s + n * d, d), m);
    const auto& b = *f.buffers_ptr_;
    return f.total_deviation() == total(n, [&](auto i) { return ratio(b.samples_to_nearest_medoid_distances_[i], b.samples_to_second_nearest_medoid_distances_[i]); });
}
//@ losses
bool law_D03_losses(const PM& p, const VI& m, std::size_t j) {
    if (m.size() < 3 || !(j < m.size())) return true;
    MSC f(p, m);
    auto& b = *f.buffers_ptr_;
    const auto first = b.losses_with_closest_medoid_removal_[j];
    b.losses_with_closest_medoid_removal_ = V();
    b.update_losses_with_closest_medoid_removal(m.size());
    auto rest = [&](auto i) {
        const D x = b.samples_to_nearest_medoid_distances_[i], y = b.samples_to_second_nearest_medoid_distances_[i], z = b.samples_to_third_nearest_medoid_distances_[i];
        return b.samples_to_nearest_medoid_indices_[i] == j ? ratio(x, y) - ratio(y, z) : b.samples_to_second_nearest_medoid_indices_[i] == j ? ratio(x, y) - ratio(x, z) : D(0);
    };
    return b.losses_with_closest_medoid_removal_[j] == first && first == total(p.n_rows(), rest);
}
//@ best_swap
bool law_D03_best_swap(const PM& p, const VI& m, const VI& a, const VI& t, const V& x, const V& e, const V& g, std::size_t c) {
    const auto n = p.n_rows(), k = m.size();
    if (k < 3 || !(c < n) || a.size() != n || t.size() != n || x.size() != n || e.size() != n || g.size() != n || some(n, [&](auto i) { return !(a[i] < k) || !(t[i] < k) || a[i] == t[i]; })) return true;
    MSC f(p, m, D(0));
    auto& b = *f.buffers_ptr_;
    V y(n), z(n);
    for (std::size_t i = 0; i < n; ++i) y[i] = x[i] + gap(e[i]);
    for (std::size_t i = 0; i < n; ++i) z[i] = x[i] + gap(e[i]) + gap(g[i]);
    b.samples_to_nearest_medoid_indices_ = a; b.samples_to_second_nearest_medoid_indices_ = t;
    b.samples_to_nearest_medoid_distances_ = x; b.samples_to_second_nearest_medoid_distances_ = y; b.samples_to_third_nearest_medoid_distances_ = z;
    b.update_losses_with_closest_medoid_removal(k);
    const auto r = f.find_best_swap(c);
    // the two smallest of the remaining distances and the candidate's
    auto after = [&](std::size_t j, std::size_t o) {
        const D u = a[o] == j ? y[o] : x[o], v = a[o] == j || t[o] == j ? z[o] : y[o], q = p(c, o);
        return q < u ? ratio(q, u) : q < v ? ratio(u, q) : ratio(u, v);
    };
    auto gain = [&](std::size_t j) { return total(n, [&](auto o) { return ratio(x[o], y[o]) - after(j, o); }); };
    return r.second < k && r.first == gain(r.second) && !some(k, [&](auto j) { return gain(j) > r.first; });
}
//@ swap
#define SWAP \
    const auto n = p.n_rows(), k = m.size(); \
    if (k < 3 || !(c < n) || !(o < n) || !(w < k) || some(k, [&](auto j) { return !(m[j] < n); })) return true; \
    MSC f(p, m, D(0)); \
    f.medoids_[w] = c; \
    const auto loss = f.swap_buffers(c, w); \
    const auto& b = *f.buffers_ptr_; \
    auto e = [&](std::size_t j) { return j == w ? (o == c ? D(0) : p(c, o)) : p(m[j], o); }; \
    const auto x = b.samples_to_nearest_medoid_indices_[o], y = b.samples_to_second_nearest_medoid_indices_[o], z = b.samples_to_third_nearest_medoid_indices_[o]; \
    (void)loss; (void)e; (void)x; (void)y; (void)z;
bool law_D03_swap_nearest(const PM& p, const VI& m, std::size_t c, std::size_t w, std::size_t o) {
    SWAP
    if (o == c) return x == w && b.samples_to_nearest_medoid_distances_[o] == 0;
    return x < k && b.samples_to_nearest_medoid_distances_[o] == e(x) && !some(k, [&](auto j) { return e(j) < e(x); });
}
//@ swap_second
bool law_D03_swap_second(const PM& p, const VI& m, std::size_t c, std::size_t w, std::size_t o) {
    SWAP
    return y < k && y != x && b.samples_to_second_nearest_medoid_distances_[o] == e(y) && !some(k, [&](auto j) { return j != x && e(j) < e(y); });
}
//@ swap_third
bool law_D03_swap_third(const PM& p, const VI& m, std::size_t c, std::size_t w, std::size_t o) {
    SWAP
    return z < k && z != x && z != y && b.samples_to_third_nearest_medoid_distances_[o] == e(z) && !some(k, [&](auto j) { return j != x && j != y && e(j) < e(z); });
}
//@ swap_loss
bool law_D03_swap_loss(const PM& p, const VI& m, std::size_t c, std::size_t w, std::size_t o) {
    SWAP
    return loss == total(n, [&](auto i) { return ratio(b.samples_to_nearest_medoid_distances_[i], b.samples_to_second_nearest_medoid_distances_[i]); });
}
// two medoids
#define TWO \
    const auto n = p.n_rows(); \
    if (m.size() != 2 || !(c < n) || m[0] == m[1] || !(m[0] < n) || !(m[1] < n)) return true; \
    MSC f(p, m, D(0)); \
    auto pair_ratio = [](D a, D b) { return a < b ? ratio(a, b) : ratio(b, a); };
//@ best_swap_two
bool law_D03_best_swap_two(const PM& p, const VI& m, std::size_t c) {
    TWO
    const auto r = f.find_best_swap_k2(c);
    auto loss = [&](std::size_t j) { return total(n, [&](auto o) { return pair_ratio(p(c, o), p(m[1 - j], o)); }); };
    return r.second < 2 && r.first == loss(r.second) && !(loss(1 - r.second) < r.first);
}
//@ swap_two
bool law_D03_swap_two(const PM& p, const VI& m, std::size_t c, std::size_t w, std::size_t o) {
    TWO
    if (!(w < 2) || !(o < n)) return true;
    const auto kept = w == 0 ? m[1] : m[0];
    if (c == kept) return true;
    f.swap_buffers_k2(c, w);
    const auto& b = *f.buffers_ptr_;
    const auto x = b.samples_to_nearest_medoid_indices_[o];
    const D u = o == c ? D(0) : p(c, o), v = p(kept, o);
    const D near = x == w ? u : v, far = x == w ? v : u;
    return x < 2 && f.medoids_[w] == c && f.medoids_[1 - w] == kept && (o == c ? x == w : near <= far) && b.samples_to_nearest_medoid_distances_[o] == near && b.samples_to_second_nearest_medoid_distances_[o] == far;
}
//@ swap_two_loss
bool law_D03_swap_two_loss(const PM& p, const VI& m, std::size_t c, std::size_t w) {
    TWO
    if (!(w < 2)) return true;
    const auto loss = f.swap_buffers_k2(c, w);
    return loss == total(n, [&](auto o) { return o == c ? D(0) : pair_ratio(p(c, o), p(m[1 - w], o)); });
}
// a pass over the candidates
static std::size_t few(D x, std::size_t n) { return std::size_t(x < 0 ? -x : x) % n; }
static std::size_t slot(std::size_t c, std::size_t k) { return few(uf(71, c), k); }
static std::pair<D, std::size_t> best(const MSC& f, std::size_t c) { ghost(f) += uf(72, c); return {uf(70, c), slot(c, f.medoids_.size())}; }
static D swapped(MSC& f, std::size_t c, std::size_t w) { ghost(f) += uf(73, c, w, f.medoids_[w]); return uf(74, c, w); }
static D swapped2(MSC& f, std::size_t c, std::size_t w) { f.medoids_[w] = c; ghost(f) += uf(73, c, w, c); return uf(74, c, w); }
static void losses(MSC::Buffers& b, std::size_t k) { ghost(b) += k; }
#define STEP(BETTER) \
    f.buffers_ptr_->samples_to_nearest_medoid_indices_ = a; \
    ghost(f) = 0; ghost(*f.buffers_ptr_) = 0; \
    const auto r = f.step(); \
    VI x(m); \
    D tried = 0, loss = 0, updates = 0; \
    for (std::size_t c = 0; c < n; ++c) \
        if (x[a[c]] != c) { \
            tried += uf(72, c); \
            if (BETTER) { const auto w = slot(c, k); x[w] = c; tried += uf(73, c, w, c); loss = uf(74, c, w); updates += k; } \
        } \
    const bool ok = r.size() == k && r[j] == x[j] && f.medoids_[j] == x[j] && ghost(f) == tried && f.loss_ == loss;
//@ step
//! D03_step ffcl::FasterMSC::find_best_swap -> best
//! D03_step ffcl::FasterMSC::swap_buffers -> swapped
//! D03_step ffcl::FasterMSC::Buffers::update_losses_with_closest_medoid_removal -> losses
bool law_D03_step(const PM& p, const VI& m, const VI& a, std::size_t j) {
    const auto n = p.n_rows(), k = m.size();
    if (k < 3 || !(j < k) || a.size() != n || some(n, [&](auto i) { return !(a[i] < k); })) return true;
    MSC f(p, m, D(0));
    STEP(uf(70, c) > 0)
    return ok && ghost(*f.buffers_ptr_) == updates;
}
//@ two_step
//! D03_two_step ffcl::FasterMSC::find_best_swap_k2 -> best
//! D03_two_step ffcl::FasterMSC::swap_buffers_k2 -> swapped2
bool law_D03_two_step(const PM& p, const VI& m, const VI& a, std::size_t j) {
    const auto n = p.n_rows(), k = m.size();
    if (k != 2 || !(j < k) || a.size() != n || some(n, [&](auto i) { return !(a[i] < k); })) return true;
    MSC f(p, m, D(0));
    STEP(uf(70, c) < loss)
    return ok;
}
