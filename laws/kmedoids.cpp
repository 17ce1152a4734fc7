#include "prelude.hpp"
namespace u = pam::utils;
namespace h = ffcl::common::math::heuristics;
template <class F> bool some(std::size_t n, F f) { bool x = false; for (std::size_t i = 0; i < n; ++i) x = x || f(i); return x; }
template <class F> D total(std::size_t n, F f) { D s = 0; for (std::size_t i = 0; i < n; ++i) s += f(i); return s; }
template <class F> std::size_t tally(std::size_t n, F f) { std::size_t s = 0; for (std::size_t i = 0; i < n; ++i) if (f(i)) ++s; return s; }
template <class F> D least(std::size_t n, F f) { D s = std::numeric_limits<D>::infinity(); for (std::size_t i = 0; i < n; ++i) { const D x = f(i); if (x < s) s = x; } return s; }
using V  = std::vector<D>;
using VI = std::vector<std::size_t>;
using PM = ffcl::datastruct::PairwiseDistanceMatrix<SIt>;
static D dist(SIt s, std::size_t d, std::size_t i, std::size_t j) { return h::auto_distance(s + i * d, s + i * d + d, s + j * d, s + j * d + d); }
#define PRE if (d == 0 || !(i < n) || m.size() == 0 || some(m.size(), [&](auto j) { return !(m[j] < n); })) return true
#define PREM if (!(i < p.n_rows()) || m.size() == 0 || some(m.size(), [&](auto j) { return !(m[j] < p.n_rows()); })) return true
// x is one of at most `below` smallest
#define RANK(D_, x, r) (tally(m.size(), [&](auto j) { return D_(j) < (x); }) < (r) && (r) <= tally(m.size(), [&](auto j) { return D_(j) <= (x); }))
//@ nearest_index
bool law_D01_nearest_index(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    const auto r = u::samples_to_nearest_medoid_indices(s, s + n * d, d, m);
    return r.size() == n && r[i] < m.size() && !some(m.size(), [&](auto j) { return dist(s, d, m[j], i) < dist(s, d, m[r[i]], i); });
}
//@ nearest_index_matrix
bool law_D01_nearest_index_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    const auto r = u::samples_to_nearest_medoid_indices(p, m);
    return r.size() == p.n_rows() && r[i] < m.size() && !some(m.size(), [&](auto j) { return p(m[j], i) < p(m[r[i]], i); });
}
//@ nearest_distance
bool law_D01_nearest_distance(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    const auto r = u::samples_to_nearest_medoid_distances(s, s + n * d, d, m);
    return r.size() == n && r[i] == least(m.size(), [&](auto j) { return dist(s, d, m[j], i); });
}
//@ nearest_distance_matrix
bool law_D01_nearest_distance_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    const auto r = u::samples_to_nearest_medoid_distances(p, m);
    return r.size() == p.n_rows() && r[i] == least(m.size(), [&](auto j) { return p(m[j], i); });
}
//@ second_index
bool law_D01_second_index(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    if (m.size() < 2) return true;
    const auto a = u::samples_to_nearest_medoid_indices(s, s + n * d, d, m);
    const auto r = u::samples_to_second_nearest_medoid_indices(s, s + n * d, d, m);
    return r.size() == n && r[i] < m.size() && r[i] != a[i] && !some(m.size(), [&](auto j) { return j != a[i] && dist(s, d, m[j], i) < dist(s, d, m[r[i]], i); });
}
//@ second_index_matrix
bool law_D01_second_index_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    if (m.size() < 2) return true;
    const auto a = u::samples_to_nearest_medoid_indices(p, m);
    const auto r = u::samples_to_second_nearest_medoid_indices(p, m);
    return r.size() == p.n_rows() && r[i] < m.size() && r[i] != a[i] && !some(m.size(), [&](auto j) { return j != a[i] && p(m[j], i) < p(m[r[i]], i); });
}
//@ second_distance
bool law_D01_second_distance(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    if (m.size() < 2) return true;
    const auto r = u::samples_to_second_nearest_medoid_distances(s, s + n * d, d, m);
    return r.size() == n && RANK([&](auto j) { return dist(s, d, m[j], i); }, r[i], 2);
}
//@ second_distance_matrix
bool law_D01_second_distance_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    if (m.size() < 2) return true;
    const auto r = u::samples_to_second_nearest_medoid_distances(p, m);
    return r.size() == p.n_rows() && RANK([&](auto j) { return p(m[j], i); }, r[i], 2);
}
//@ third_index
bool law_D01_third_index(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    if (m.size() < 3) return true;
    const auto a = u::samples_to_nearest_medoid_indices(s, s + n * d, d, m);
    const auto b = u::samples_to_second_nearest_medoid_indices(s, s + n * d, d, m);
    const auto r = u::samples_to_third_nearest_medoid_indices(s, s + n * d, d, m);
    return r.size() == n && r[i] < m.size() && r[i] != a[i] && r[i] != b[i] && !some(m.size(), [&](auto j) { return j != a[i] && j != b[i] && dist(s, d, m[j], i) < dist(s, d, m[r[i]], i); });
}
//@ third_index_matrix
bool law_D01_third_index_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    if (m.size() < 3) return true;
    const auto a = u::samples_to_nearest_medoid_indices(p, m);
    const auto b = u::samples_to_second_nearest_medoid_indices(p, m);
    const auto r = u::samples_to_third_nearest_medoid_indices(p, m);
    return r.size() == p.n_rows() && r[i] < m.size() && r[i] != a[i] && r[i] != b[i] && !some(m.size(), [&](auto j) { return j != a[i] && j != b[i] && p(m[j], i) < p(m[r[i]], i); });
}
//@ third_distance
bool law_D01_third_distance(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    if (m.size() < 3) return true;
    const auto r = u::samples_to_third_nearest_medoid_distances(s, s + n * d, d, m);
    return r.size() == n && RANK([&](auto j) { return dist(s, d, m[j], i); }, r[i], 3);
}
//@ third_distance_matrix
bool law_D01_third_distance_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    if (m.size() < 3) return true;
    const auto r = u::samples_to_third_nearest_medoid_distances(p, m);
    return r.size() == p.n_rows() && RANK([&](auto j) { return p(m[j], i); }, r[i], 3);
}
//@ predict
bool law_D01_predict(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    const ffcl::KMedoids<D> k(m.size(), m);
    const auto r = k.predict(s, s + n * d, d);
    const auto f = k.forward(s, s + n * d, d);
    return r.size() == n && f.size() == n && r[i] < m.size() && f[i] == dist(s, d, m[r[i]], i) && !some(m.size(), [&](auto j) { return dist(s, d, m[j], i) < f[i]; });
}
//@ predict_matrix
bool law_D01_predict_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    const ffcl::KMedoids<D> k(m.size(), m);
    const auto r = k.predict(p);
    const auto f = k.forward(p);
    return r.size() == p.n_rows() && f.size() == p.n_rows() && r[i] < m.size() && f[i] == p(m[r[i]], i) && !some(m.size(), [&](auto j) { return p(m[j], i) < f[i]; });
}
//@ centroids
bool law_D01_centroids(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i, std::size_t f) {
    if (!(i < m.size()) || !(f < d)) return true;
    const auto r = u::medoids_to_centroids(s, s + n * d, d, m);
    return r.size() == m.size() * d && r[i * d + f] == s[m[i] * d + f];
}
//@ first_medoid
bool law_D01_first_medoid(SIt s, std::size_t n, std::size_t d) {
    if (d == 0 || n == 0) return true;
    const auto r = u::first_medoid_td_index_pair(s, s + n * d, d);
    auto td = [&](std::size_t c) { return total(n, [&](auto o) { return dist(s, d, c, o); }); };
    return r.second < n && r.first == td(r.second) && !some(n, [&](auto c) { return td(c) < r.first; });
}
//@ first_medoid_matrix
bool law_D01_first_medoid_matrix(const PM& p) {
    if (p.n_rows() == 0) return true;
    const auto r = u::first_medoid_td_index_pair(p);
    auto td = [&](std::size_t c) { return total(p.n_rows(), [&](auto o) { return p(c, o); }); };
    return r.second < p.n_rows() && r.first == td(r.second) && !some(p.n_rows(), [&](auto c) { return td(c) < r.first; });
}
//@ removal
bool law_D02_removal(const VI& a, const V& x, const V& y, std::size_t k, std::size_t j) {
    if (!(j < k) || some(a.size(), [&](auto i) { return !(a[i] < k); }) || x.size() != a.size() || y.size() != a.size()) return true;
    const auto r = u::compute_losses_with_closest_medoid_removal<D>(a, x, y, k);
    return r.size() == k && r[j] == total(a.size(), [&](auto i) { return a[i] == j ? y[i] - x[i] : D(0); });
}
//@ silhouette_removal
bool law_D02_silhouette_removal(const VI& a, const VI& b, const V& x, const V& y, const V& z, std::size_t k, std::size_t j) {
    if (!(j < k) || some(a.size(), [&](auto i) { return !(a[i] < k) || !(b[i] < k) || a[i] == b[i]; }) || b.size() != a.size() || x.size() != a.size() || y.size() != a.size() || z.size() != a.size()) return true;
    const auto r = u::compute_losses_with_silhouette_medoid_removal<D>(a, b, x, y, z, k);
    auto q = [](D n, D d) { return ffcl::common::division(n, d); };
    return r.size() == k && r[j] == total(a.size(), [&](auto i) { return a[i] == j ? q(x[i], y[i]) - q(y[i], z[i]) : b[i] == j ? q(x[i], y[i]) - q(x[i], z[i]) : D(0); });
}
//@ best_swap
bool law_D02_best_swap(const PM& p, const VI& m, const VI& a, const V& x, const V& e, std::size_t c) {
    const auto n = p.n_rows(), k = m.size();
    if (k == 0 || !(c < n) || a.size() != n || x.size() != n || e.size() != n || some(n, [&](auto i) { return !(a[i] < k); })) return true;
    ffcl::FasterPAM<SIt> f(p, m, D(0));
    auto& b = *f.buffers_ptr_;
    V y(n);
    for (std::size_t i = 0; i < n; ++i) y[i] = x[i] + std::abs(e[i]);
    b.samples_to_nearest_medoid_indices_ = a; b.samples_to_nearest_medoid_distances_ = x; b.samples_to_second_nearest_medoid_distances_ = y;
    b.update_losses_with_closest_medoid_removal(k);
    const auto r = f.find_best_swap(c);
    auto change = [&](std::size_t j) { return total(n, [&](auto o) { return std::min(p(c, o), a[o] == j ? y[o] : x[o]) - x[o]; }); };
    return r.second < k && r.first == change(r.second) && !some(k, [&](auto j) { return change(j) < r.first; });
}
//@ swap
#define SWAP(A) \
    if (m.size() < 2 || !(c < n) || !(o < n) || !(w < m.size()) || some(m.size(), [&](auto j) { return !(m[j] < n); })) return true; \
    f.medoids_[w] = c; \
    const auto loss = f.swap_buffers(c, w); \
    auto e = [&](std::size_t j, std::size_t i) { return j == w ? P(c, i) : P(m[j], i); }; \
    const auto& b = *f.buffers_ptr_; \
    const auto k = m.size();
bool law_D02_swap_nearest(const PM& p, const VI& m, std::size_t n, std::size_t c, std::size_t w, std::size_t o) {
    if (n != p.n_rows()) return true;
    ffcl::FasterPAM<SIt> f(p, m, D(0));
    auto P = [&](std::size_t i, std::size_t j) { return p(i, j); };
    SWAP()
    if (o == c) return true;
    const auto r = b.samples_to_nearest_medoid_indices_[o];
    return r < k && b.samples_to_nearest_medoid_distances_[o] == e(r, o) && !some(k, [&](auto j) { return e(j, o) < e(r, o); });
}
//@ swap_second
bool law_D02_swap_second(const PM& p, const VI& m, std::size_t n, std::size_t c, std::size_t w, std::size_t o) {
    if (n != p.n_rows()) return true;
    ffcl::FasterPAM<SIt> f(p, m, D(0));
    auto P = [&](std::size_t i, std::size_t j) { return p(i, j); };
    SWAP()
    if (o == c) return true;
    const auto a = b.samples_to_nearest_medoid_indices_[o], r = b.samples_to_second_nearest_medoid_indices_[o];
    return r < k && r != a && b.samples_to_second_nearest_medoid_distances_[o] == e(r, o) && !some(k, [&](auto j) { return j != a && e(j, o) < e(r, o); });
}
//@ swap_self
bool law_D02_swap_self(const PM& p, const VI& m, std::size_t n, std::size_t c, std::size_t w, std::size_t o) {
    if (n != p.n_rows()) return true;
    ffcl::FasterPAM<SIt> f(p, m, D(0));
    auto P = [&](std::size_t i, std::size_t j) { return p(i, j); };
    SWAP()
    if (o != c) return true;
    const auto r = b.samples_to_second_nearest_medoid_indices_[o];
    return b.samples_to_nearest_medoid_indices_[o] == w && b.samples_to_nearest_medoid_distances_[o] == 0 &&
           r < k && r != w && b.samples_to_second_nearest_medoid_distances_[o] == e(r, o) && !some(k, [&](auto j) { return j != w && e(j, o) < e(r, o); });
}
//@ swap_loss
bool law_D02_swap_loss(const PM& p, const VI& m, std::size_t n, std::size_t c, std::size_t w, std::size_t o) {
    if (n != p.n_rows()) return true;
    ffcl::FasterPAM<SIt> f(p, m, D(0));
    auto P = [&](std::size_t i, std::size_t j) { return p(i, j); };
    SWAP()
    (void)e; (void)k;
    return loss == total(n, [&](auto i) { return b.samples_to_nearest_medoid_distances_[i]; });
}
//@ initial
bool law_D02_initial_loss(const PM& p, const VI& m) {
    if (m.size() < 2) return true;
    const ffcl::FasterPAM<SIt> f(p, m);
    return f.total_deviation() == total(p.n_rows(), [&](auto i) { return least(m.size(), [&](auto j) { return p(m[j], i); }); });
}
//@ initial_data
bool law_D02_initial_loss_data(SIt s, std::size_t n, std::size_t d, const VI& m) {
    if (d == 0 || m.size() < 2) return true;
    const ffcl::FasterPAM<SIt> f(std::make_tuple(s, s + n * d, d), m);
    return f.total_deviation() == total(n, [&](auto i) { return least(m.size(), [&](auto j) { return dist(s, d, m[j], i); }); });
}
//@ buffers
#define TABLES(N) \
    const auto& b = *f.buffers_ptr_; \
    const auto k = m.size(); \
    const auto x = b.samples_to_nearest_medoid_indices_[i], y = b.samples_to_second_nearest_medoid_indices_[i]; \
    bool ok = f.n_samples_ == N && b.samples_to_nearest_medoid_indices_.size() == N && b.samples_to_second_nearest_medoid_indices_.size() == N && b.samples_to_nearest_medoid_distances_.size() == N && b.samples_to_second_nearest_medoid_distances_.size() == N && \
              x < k && y < k && x != y && b.samples_to_nearest_medoid_distances_[i] == e(x, i) && b.samples_to_second_nearest_medoid_distances_[i] == e(y, i) && \
              !some(k, [&](auto j) { return e(j, i) < e(x, i) || (j != x && e(j, i) < e(y, i)); }) && f.medoids_.size() == k && (!(r < k) || f.medoids_[r] == m[r]);
#define LOSSES(N) \
    const auto& b = *f.buffers_ptr_; \
    return b.losses_with_closest_medoid_removal_.size() == m.size() && b.losses_with_closest_medoid_removal_[r] == total(N, [&](auto o) { \
        return b.samples_to_nearest_medoid_indices_[o] == r ? b.samples_to_second_nearest_medoid_distances_[o] - b.samples_to_nearest_medoid_distances_[o] : D(0); });
bool law_D02_tables(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i, std::size_t r) {
    PRE;
    if (m.size() < 2) return true;
    const ffcl::FasterPAM<SIt> f(std::make_tuple(s, s + n * d, d), m);
    auto e = [&](std::size_t j, std::size_t o) { return dist(s, d, m[j], o); };
    TABLES(n)
    return ok;
}
//@ tables_matrix
bool law_D02_tables_matrix(const PM& p, const VI& m, std::size_t i, std::size_t r) {
    PREM;
    if (m.size() < 2) return true;
    const ffcl::FasterPAM<SIt> f(p, m);
    auto e = [&](std::size_t j, std::size_t o) { return p(m[j], o); };
    TABLES(p.n_rows())
    return ok;
}
//@ losses
bool law_D02_losses(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t r) {
    if (d == 0 || m.size() < 2 || !(r < m.size()) || some(m.size(), [&](auto j) { return !(m[j] < n); })) return true;
    const ffcl::FasterPAM<SIt> f(std::make_tuple(s, s + n * d, d), m);
    LOSSES(n)
}
//@ losses_matrix
bool law_D02_losses_matrix(const PM& p, const VI& m, std::size_t r) {
    if (m.size() < 2 || !(r < m.size()) || some(m.size(), [&](auto j) { return !(m[j] < p.n_rows()); })) return true;
    const ffcl::FasterPAM<SIt> f(p, m);
    LOSSES(p.n_rows())
}
// a pass over the candidates: which are tried, which swaps are made
using PAM = ffcl::FasterPAM<SIt>;
using MSC = ffcl::FasterMSC<SIt>;
static std::size_t few(D x, std::size_t n) { return std::size_t(x < 0 ? -x : x) % n; }
static std::size_t slot(std::size_t c, std::size_t k) { return few(uf(71, c), k); }
static std::pair<D, std::size_t> pam_best(const PAM& f, std::size_t c) { ghost(f) += uf(72, c); return {uf(70, c), slot(c, f.medoids_.size())}; }
static D pam_swap(PAM& f, std::size_t c, std::size_t w) { ghost(f) += uf(73, c, w, f.medoids_[w]); return uf(74, c, w); }
static void pam_losses(PAM::Buffers& b, std::size_t k) { ghost(b) += k; }
//@ step
//! D02_step ffcl::FasterPAM::find_best_swap -> pam_best
//! D02_step ffcl::FasterPAM::swap_buffers -> pam_swap
//! D02_step ffcl::FasterPAM::Buffers::update_losses_with_closest_medoid_removal -> pam_losses
bool law_D02_step(const PM& p, const VI& m, const VI& a, std::size_t j) {
    const auto n = p.n_rows(), k = m.size();
    if (k == 0 || !(j < k) || a.size() != n || some(n, [&](auto i) { return !(a[i] < k); })) return true;
    PAM f(p, m, D(0));
    f.buffers_ptr_->samples_to_nearest_medoid_indices_ = a;
    ghost(f) = 0; ghost(*f.buffers_ptr_) = 0;
    const auto r = f.step();
    VI x(m);
    D tried = 0, loss = 0, updates = 0;
    for (std::size_t c = 0; c < n; ++c)
        if (x[a[c]] != c) {
            tried += uf(72, c);
            if (uf(70, c) < 0) { const auto w = slot(c, k); x[w] = c; tried += uf(73, c, w, c); loss = uf(74, c, w); updates += k; }
        }
    return r.size() == k && r[j] == x[j] && f.medoids_[j] == x[j] && ghost(f) == tried && f.loss_ == loss && ghost(*f.buffers_ptr_) == updates;
}

// the n-th nearest is the nearest, the second nearest, the third nearest
//@ nth_index
bool law_D01_nth_index(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    if (m.size() < 3) return true;
    const auto a = u::samples_to_nth_nearest_medoid_indices(s, s + n * d, d, m), b = u::samples_to_nth_nearest_medoid_indices(s, s + n * d, d, m, 2), c = u::samples_to_nth_nearest_medoid_indices(s, s + n * d, d, m, 3);
    return a[i] == u::samples_to_nearest_medoid_indices(s, s + n * d, d, m)[i] && b[i] == u::samples_to_second_nearest_medoid_indices(s, s + n * d, d, m)[i] && c[i] == u::samples_to_third_nearest_medoid_indices(s, s + n * d, d, m)[i];
}
//@ nth_index_matrix
bool law_D01_nth_index_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    if (m.size() < 3) return true;
    const auto a = u::samples_to_nth_nearest_medoid_indices(p, m), b = u::samples_to_nth_nearest_medoid_indices(p, m, 2), c = u::samples_to_nth_nearest_medoid_indices(p, m, 3);
    return a[i] == u::samples_to_nearest_medoid_indices(p, m)[i] && b[i] == u::samples_to_second_nearest_medoid_indices(p, m)[i] && c[i] == u::samples_to_third_nearest_medoid_indices(p, m)[i];
}
//@ nth_distance
bool law_D01_nth_distance(SIt s, std::size_t n, std::size_t d, const VI& m, std::size_t i) {
    PRE;
    if (m.size() < 3) return true;
    const auto a = u::samples_to_nth_nearest_medoid_distances(s, s + n * d, d, m), b = u::samples_to_nth_nearest_medoid_distances(s, s + n * d, d, m, 2), c = u::samples_to_nth_nearest_medoid_distances(s, s + n * d, d, m, 3);
    return a[i] == u::samples_to_nearest_medoid_distances(s, s + n * d, d, m)[i] && b[i] == u::samples_to_second_nearest_medoid_distances(s, s + n * d, d, m)[i] && c[i] == u::samples_to_third_nearest_medoid_distances(s, s + n * d, d, m)[i];
}
//@ nth_distance_matrix
bool law_D01_nth_distance_matrix(const PM& p, const VI& m, std::size_t i) {
    PREM;
    if (m.size() < 3) return true;
    const auto a = u::samples_to_nth_nearest_medoid_distances(p, m), b = u::samples_to_nth_nearest_medoid_distances(p, m, 2), c = u::samples_to_nth_nearest_medoid_distances(p, m, 3);
    return a[i] == u::samples_to_nearest_medoid_distances(p, m)[i] && b[i] == u::samples_to_second_nearest_medoid_distances(p, m)[i] && c[i] == u::samples_to_third_nearest_medoid_distances(p, m)[i];
}
