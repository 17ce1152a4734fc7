#include "prelude.hpp"
namespace u = kmeans::utils;
namespace h = ffcl::common::math::heuristics;
template <class F> bool some(std::size_t n, F f) { bool x = false; for (std::size_t i = 0; i < n; ++i) x = x || f(i); return x; }
template <class F> D total(std::size_t n, F f) { D s = 0; for (std::size_t i = 0; i < n; ++i) s += f(i); return s; }
template <class F> std::size_t tally(std::size_t n, F f) { std::size_t s = 0; for (std::size_t i = 0; i < n; ++i) if (f(i)) ++s; return s; }
template <class F> D least(std::size_t n, F f) { D s = std::numeric_limits<D>::infinity(); for (std::size_t i = 0; i < n; ++i) { const D x = f(i); if (x < s) s = x; } return s; }
using V  = std::vector<D>;
using VI = std::vector<std::size_t>;
static D dist(SIt s, std::size_t d, std::size_t i, const V& c, std::size_t j) { return h::auto_distance(s + i * d, s + i * d + d, c.begin() + j * d, c.begin() + j * d + d); }
#define PRE if (d == 0 || !(i < n) || c.size() != k * d || k == 0) return true
//@ nearest
bool law_K01_nearest_index(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i) {
    PRE;
    const auto r = u::samples_to_nearest_centroid_indices(s, s + n * d, d, c);
    return r.size() == n && r[i] < k && !some(k, [&](auto j) { return dist(s, d, i, c, j) < dist(s, d, i, c, r[i]); });
}
//@ nearest_distance
bool law_K01_nearest_distance(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i) {
    PRE;
    const auto r = u::samples_to_nearest_centroid_distances(s, s + n * d, d, c);
    return r.size() == n && r[i] == least(k, [&](auto j) { return dist(s, d, i, c, j); });
}
//@ second
bool law_K01_second_nearest(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i) {
    PRE;
    if (k < 2) return true;
    const auto r = u::samples_to_second_nearest_centroid_distances(s, s + n * d, d, c);
    return r.size() == n && tally(k, [&](auto j) { return dist(s, d, i, c, j) < r[i]; }) < 2 && 1 < tally(k, [&](auto j) { return dist(s, d, i, c, j) <= r[i]; });
}
//@ sizes
bool law_K01_cluster_sizes(CIt l, std::size_t n, std::size_t k, std::size_t j) {
    if (!(j < k) || some(n, [&](auto i) { return !(l[i] < k); })) return true;
    const auto r = u::compute_cluster_sizes(l, l + n, k);
    return r.size() == k && r[j] == tally(n, [&](auto i) { return l[i] == j; });
}
//@ sums
bool law_K01_position_sums(SIt s, std::size_t n, std::size_t d, CIt l, std::size_t k, std::size_t j, std::size_t f) {
    if (!(j < k) || !(f < d) || some(n, [&](auto i) { return !(l[i] < k); })) return true;
    const auto r = u::compute_cluster_positions_sum(s, s + n * d, d, l, k);
    return r.size() == k * d && r[j * d + f] == total(n, [&](auto i) { return l[i] == j ? s[i * d + f] : D(0); });
}
//@ neighbor
bool law_K01_neighbor(SIt s, std::size_t n, std::size_t d, std::size_t i) {
    if (d == 0 || !(i < n)) return true;
    const auto r = u::nearest_neighbor_distances(s, s + n * d, d);
    return r.size() == n && r[i] == least(n, [&](auto j) { return j == i ? std::numeric_limits<D>::infinity() : h::auto_distance(s + i * d, s + i * d + d, s + j * d, s + j * d + d); });
}
//@ predict
bool law_K01_predict(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i) {
    PRE;
    const ffcl::KMeans<D> m(k, c);
    const auto r = m.predict(s, s + n * d, d);
    return r.size() == n && r[i] < k && !some(k, [&](auto j) { return dist(s, d, i, c, j) < dist(s, d, i, c, r[i]); });
}
//@ forward
bool law_K01_forward(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i) {
    PRE;
    const ffcl::KMeans<D> m(k, c);
    const auto r = m.forward(s, s + n * d, d);
    return r.size() == n && r[i] == least(k, [&](auto j) { return dist(s, d, i, c, j); });
}
//@ lloyd_init
bool law_K02_lloyd_initial(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i) {
    PRE;
    ffcl::Lloyd<SIt> a(std::make_tuple(s, s + n * d, d), c);
    return a.total_deviation() == total(n, [&](auto i) { return least(k, [&](auto j) { return dist(s, d, i, c, j); }); });
}
//@ lloyd_step
bool law_K02_lloyd_step(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t j, std::size_t f) {
    if (d == 0 || !(f < d) || !(j < k) || c.size() != k * d) return true;
    ffcl::Lloyd<SIt> a(std::make_tuple(s, s + n * d, d), c);
    const auto l = u::samples_to_nearest_centroid_indices(s, s + n * d, d, c);
    const auto r = a.step();
    const auto m = tally(n, [&](auto i) { return l[i] == j; });
    return r.size() == c.size() && r[j * d + f] == (m == 0 ? c[j * d + f] : total(n, [&](auto i) { return l[i] == j ? s[i * d + f] : D(0); }) / m);
}
//@ lloyd_step_loss
bool law_K02_lloyd_step_loss(SIt s, const V& c) {
    // two samples of one feature, two clusters
    if (c.size() != 2) return true;
    ffcl::Lloyd<SIt> a(std::make_tuple(s, s + 2, std::size_t(1)), c);
    const auto r = a.step();
    return a.total_deviation() == total(2, [&](auto i) { return least(2, [&](auto j) { return dist(s, 1, i, r, j); }); });
}
//@ lloyd_step_loss_one
bool law_K02_lloyd_step_loss_one(SIt s, const V& c) {
    // three samples of one feature, one cluster: the mean may be further from them than the centroid was
    if (c.size() != 1) return true;
    ffcl::Lloyd<SIt> a(std::make_tuple(s, s + 3, std::size_t(1)), c);
    const auto r = a.step();
    return a.total_deviation() == total(3, [&](auto i) { return dist(s, 1, i, r, 0); });
}
//@ lloyd_update
bool law_K02_lloyd_update(SIt s, std::size_t n, std::size_t d, const V& c, const V& r, std::size_t k, std::size_t i) {
    PRE;
    if (r.size() != c.size()) return true;
    ffcl::Lloyd<SIt> a(std::make_tuple(s, s + n * d, d), c);
    a.centroids_ = r;
    const D loss = a.update_buffers();
    const auto& b = a.buffers_ptr_->samples_to_nearest_centroid_indices_;
    return b.size() == n && !some(k, [&](auto j) { return dist(s, d, i, r, j) < dist(s, d, i, r, b[i]); }) && b[i] < k &&
           loss == total(n, [&](auto i) { return least(k, [&](auto j) { return dist(s, d, i, r, j); }); });
}
//@ hamerly_initial
bool law_K03_hamerly_initial(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t i, std::size_t j) {
    PRE;
    if (!(j < k)) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    const auto& b = *a.buffers_ptr_;
    const auto l = u::samples_to_nearest_centroid_indices(s, s + n * d, d, c);
    return a.total_deviation() == total(n, [&](auto i) { return least(k, [&](auto j) { return dist(s, d, i, c, j); }); }) &&
           b.samples_to_nearest_centroid_indices_[i] == l[i] && b.cluster_sizes_[j] == tally(n, [&](auto i) { return l[i] == j; }) && b.cluster_sizes_.size() == k &&
           b.centroid_velocities_.size() == k && b.centroid_to_nearest_centroid_distances_.size() == k;
}
//@ hamerly_initial_sums
bool law_K03_hamerly_initial_sums(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t j, std::size_t f) {
    if (d == 0 || !(f < d) || !(j < k) || c.size() != k * d) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    const auto& b = *a.buffers_ptr_;
    const auto l = u::samples_to_nearest_centroid_indices(s, s + n * d, d, c);
    return b.cluster_position_sums_.size() == k * d && b.cluster_position_sums_[j * d + f] == total(n, [&](auto i) { return l[i] == j ? s[i * d + f] : D(0); });
}
//@ hamerly_centroids
bool law_K03_hamerly_centroids(SIt s, std::size_t n, std::size_t d, const V& c, const V& sums, const VI& sizes, std::size_t k, std::size_t j, std::size_t f) {
    if (d == 0 || !(f < d) || !(j < k) || c.size() != k * d || sizes.size() != k || sums.size() != k * d) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    a.buffers_ptr_->cluster_sizes_ = sizes;
    a.buffers_ptr_->cluster_position_sums_ = sums;
    a.update_centroids();
    return a.centroids_.size() == k * d && a.centroids_[j * d + f] == (sizes[j] == 0 ? c[j * d + f] : sums[j * d + f] / sizes[j]);
}
//@ hamerly_velocity
bool law_K03_hamerly_velocity(SIt s, std::size_t n, std::size_t d, const V& c, const V& p, std::size_t k, std::size_t j) {
    if (d == 0 || !(j < k) || c.size() != k * d || p.size() != k * d) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    a.update_centroids_velocities(p);
    return a.buffers_ptr_->centroid_velocities_[j] == h::auto_distance(p.begin() + j * d, p.begin() + j * d + d, c.begin() + j * d, c.begin() + j * d + d);
}
//@ hamerly_bounds
bool law_K03_hamerly_bounds(SIt s, std::size_t n, std::size_t d, const V& c, const V& vel, const VI& idx, const V& up, const V& low, std::size_t k, std::size_t i, std::size_t m) {
    PRE;
    if (vel.size() != k || idx.size() != n || up.size() != n || low.size() != n || some(n, [&](auto i) { return !(idx[i] < k); })) return true;
    if (!(m < k) || m == idx[i]) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    auto& b = *a.buffers_ptr_;
    b.centroid_velocities_ = vel;
    b.samples_to_nearest_centroid_indices_ = idx;
    b.samples_to_nearest_centroid_distances_ = up;
    b.samples_to_second_nearest_centroid_distances_ = low;
    a.update_bounds();
    // the upper bound grows by what the assigned centroid moved, the lower one shrinks by what the fastest other centroid moved
    return b.samples_to_nearest_centroid_distances_[i] == up[i] + vel[idx[i]] && b.samples_to_second_nearest_centroid_distances_[i] <= low[i] - vel[m] &&
           some(k, [&](auto j) { return j != idx[i] && b.samples_to_second_nearest_centroid_distances_[i] == low[i] - vel[j]; });
}
//@ hamerly_inter
bool law_K03_hamerly_inter(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t j) {
    if (d == 0 || !(j < k) || c.size() != k * d) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    a.update_bounds();
    return a.buffers_ptr_->centroid_to_nearest_centroid_distances_[j] ==
           least(k, [&](auto m) { return m == j ? std::numeric_limits<D>::infinity() : h::auto_distance(c.begin() + j * d, c.begin() + j * d + d, c.begin() + m * d, c.begin() + m * d + d); });
}
//@ hamerly_reassign
bool law_K03_hamerly_reassign(SIt s, std::size_t n, std::size_t d, const V& c, const V& near, const VI& idx, const V& up, const V& low, std::size_t k, std::size_t i) {
    PRE;
    if (near.size() != k || idx.size() != n || up.size() != n || low.size() != n || some(n, [&](auto i) { return !(idx[i] < k); })) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    auto& b = *a.buffers_ptr_;
    b.centroid_to_nearest_centroid_distances_ = near;
    b.samples_to_nearest_centroid_indices_ = idx;
    b.samples_to_nearest_centroid_distances_ = up;
    b.samples_to_second_nearest_centroid_distances_ = low;
    a.swap_bounds();
    const D bound = std::max(near[idx[i]] / 2, low[i]);
    const auto r = b.samples_to_nearest_centroid_indices_[i];
    const bool examined = up[i] > bound && dist(s, d, i, c, idx[i]) > bound;
    if (!examined) return r == idx[i];
    return r < k && !some(k, [&](auto j) { return dist(s, d, i, c, j) < dist(s, d, i, c, r); });
}
//@ hamerly_reassign_bounds
bool law_K03_hamerly_reassign_bounds(SIt s, std::size_t n, std::size_t d, const V& c, const V& near, const VI& idx, const V& up, const V& low, std::size_t k, std::size_t i) {
    PRE;
    if (near.size() != k || idx.size() != n || up.size() != n || low.size() != n || some(n, [&](auto i) { return !(idx[i] < k); })) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    auto& b = *a.buffers_ptr_;
    b.centroid_to_nearest_centroid_distances_ = near;
    b.samples_to_nearest_centroid_indices_ = idx;
    b.samples_to_nearest_centroid_distances_ = up;
    b.samples_to_second_nearest_centroid_distances_ = low;
    a.swap_bounds();
    const auto r = b.samples_to_nearest_centroid_indices_[i];
    // valid bounds stay valid
    const bool was = up[i] >= dist(s, d, i, c, idx[i]) && !some(k, [&](auto j) { return j != idx[i] && dist(s, d, i, c, j) < low[i]; });
    if (!was) return true;
    return b.samples_to_nearest_centroid_distances_[i] >= dist(s, d, i, c, r) &&
           !some(k, [&](auto j) { return j != r && dist(s, d, i, c, j) < b.samples_to_second_nearest_centroid_distances_[i]; });
}
//@ hamerly_reassign_exact
bool law_K03_hamerly_reassign_exact(SIt s, std::size_t n, std::size_t d, const V& c, const V& near, const VI& idx, const V& up, const V& low, std::size_t k, std::size_t i) {
    PRE;
    if (near.size() != k || idx.size() != n || up.size() != n || low.size() != n || some(n, [&](auto i) { return !(idx[i] < k); })) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    auto& b = *a.buffers_ptr_;
    b.centroid_to_nearest_centroid_distances_ = near;
    b.samples_to_nearest_centroid_indices_ = idx;
    b.samples_to_nearest_centroid_distances_ = up;
    b.samples_to_second_nearest_centroid_distances_ = low;
    a.swap_bounds();
    const auto r = b.samples_to_nearest_centroid_indices_[i];
    const D bound = std::max(near[idx[i]] / 2, low[i]);
    const D own = dist(s, d, i, c, idx[i]);
    // what is kept for an examined sample is what was measured; what is kept for the others is what was known
    if (!(up[i] > bound)) return b.samples_to_nearest_centroid_distances_[i] == up[i] && b.samples_to_second_nearest_centroid_distances_[i] == low[i];
    if (!(own > bound)) return b.samples_to_nearest_centroid_distances_[i] == own && b.samples_to_second_nearest_centroid_distances_[i] == low[i];
    return b.samples_to_nearest_centroid_distances_[i] == dist(s, d, i, c, r) &&
           b.samples_to_second_nearest_centroid_distances_[i] == least(k, [&](auto j) { return j == r ? std::numeric_limits<D>::infinity() : dist(s, d, i, c, j); });
}
//@ hamerly_counts
bool law_K03_hamerly_counts(SIt s, std::size_t n, std::size_t d, const V& c, const V& near, const VI& idx, const V& up, const V& low, const VI& sizes, std::size_t k, std::size_t j) {
    if (d == 0 || !(j < k) || c.size() != k * d || sizes.size() != k) return true;
    if (near.size() != k || idx.size() != n || up.size() != n || low.size() != n || some(n, [&](auto i) { return !(idx[i] < k); })) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    auto& b = *a.buffers_ptr_;
    b.centroid_to_nearest_centroid_distances_ = near;
    b.samples_to_nearest_centroid_indices_ = idx;
    b.samples_to_nearest_centroid_distances_ = up;
    b.samples_to_second_nearest_centroid_distances_ = low;
    b.cluster_sizes_ = sizes;
    a.swap_bounds();
    const auto& r = b.samples_to_nearest_centroid_indices_;
    return b.cluster_sizes_[j] + tally(n, [&](auto i) { return idx[i] == j; }) == sizes[j] + tally(n, [&](auto i) { return r[i] == j; });
}
//@ hamerly_sums
bool law_K03_hamerly_sums(SIt s, std::size_t n, std::size_t d, const V& c, const V& near, const VI& idx, const V& up, const V& low, const V& sums, std::size_t k, std::size_t j, std::size_t f) {
    if (d == 0 || !(j < k) || !(f < d) || c.size() != k * d || sums.size() != k * d) return true;
    if (near.size() != k || idx.size() != n || up.size() != n || low.size() != n || some(n, [&](auto i) { return !(idx[i] < k); })) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    auto& b = *a.buffers_ptr_;
    b.centroid_to_nearest_centroid_distances_ = near;
    b.samples_to_nearest_centroid_indices_ = idx;
    b.samples_to_nearest_centroid_distances_ = up;
    b.samples_to_second_nearest_centroid_distances_ = low;
    b.cluster_position_sums_ = sums;
    a.swap_bounds();
    const auto& r = b.samples_to_nearest_centroid_indices_;
    return b.cluster_position_sums_[j * d + f] - sums[j * d + f] ==
           total(n, [&](auto i) { return r[i] == j ? s[i * d + f] : D(0); }) - total(n, [&](auto i) { return idx[i] == j ? s[i * d + f] : D(0); });
}
//@ hamerly_step
bool law_K03_hamerly_step(SIt s, std::size_t n, std::size_t d, const V& c, std::size_t k, std::size_t j, std::size_t f) {
    if (d == 0 || !(f < d) || !(j < k) || c.size() != k * d) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + n * d, d), c);
    const auto l = u::samples_to_nearest_centroid_indices(s, s + n * d, d, c);
    const auto r = a.step();
    const auto m = tally(n, [&](auto i) { return l[i] == j; });
    return r.size() == c.size() && r[j * d + f] == (m == 0 ? c[j * d + f] : total(n, [&](auto i) { return l[i] == j ? s[i * d + f] : D(0); }) / m);
}
//@ hamerly_step_velocity
bool law_K03_hamerly_step_velocity(SIt s, const V& c, std::size_t j) {
    if (c.size() != 2 || !(j < 2)) return true;
    ffcl::Hamerly<SIt> a(std::make_tuple(s, s + 1, std::size_t(1)), c);
    a.step();
    const auto& r = a.centroids_;
    return r.size() == c.size() && a.buffers_ptr_->centroid_velocities_[j] == h::auto_distance(c.begin() + j, c.begin() + j + 1, r.begin() + j, r.begin() + j + 1);
}
//@ kpp
bool law_K04_plusplus(SIt s, std::size_t n, std::size_t d, std::size_t k, std::size_t j) {
    if (d == 0 || n == 0 || !(j < k)) return true;
    const auto r = ffcl::kmeansplusplus::make_centroids(s, s + n * d, d, k);
    return r.size() == k * d && some(n, [&](auto i) { return !some(d, [&](auto f) { return r[j * d + f] != s[i * d + f]; }); });
}
//@ kpp_prev
bool law_K04_plusplus_previous(SIt s, std::size_t n, std::size_t d, std::size_t k, std::size_t j) {
    if (d == 0 || n == 0 || !(j < k)) return true;
    const auto r = ffcl::kmeansplusplus::make_centroids_from_previous_centroid(s, s + n * d, d, k);
    return r.size() == k * d && some(n, [&](auto i) { return !some(d, [&](auto f) { return r[j * d + f] != s[i * d + f]; }); });
}
// what the weighted sampler is given: the last table built is remembered
using Alias = ffcl::common::math::random::VosesAliasMethod<D>;
static D seen;
static void remember(Alias& a, const V& w) { D t = 0; for (std::size_t i = 0; i < w.size(); ++i) t += uf(90, i, w[i]); seen = t; }
static D offered(std::size_t n, const V& w) { D t = 0; for (std::size_t i = 0; i < n; ++i) t += uf(90, i, w[i]); return t; }
//! K04_weights ffcl::common::math::random::VosesAliasMethod::init -> remember
//@ kpp_weights
bool law_K04_weights_nearest(SIt s, std::size_t n, std::size_t d) {
    if (d == 0 || n == 0) return true;
    const auto r = ffcl::kmeansplusplus::make_centroids(s, s + n * d, d, 3);
    const D got = seen;
    const V two(r.begin(), r.begin() + 2 * d);
    return got == offered(n, u::samples_to_nearest_centroid_distances(s, s + n * d, d, two));
}
//@ kpp_weights_prev
bool law_K04_weights_previous(SIt s, std::size_t n, std::size_t d) {
    if (d == 0 || n == 0) return true;
    const auto r = ffcl::kmeansplusplus::make_centroids_from_previous_centroid(s, s + n * d, d, 3);
    const D got = seen;
    const V one(r.begin() + d, r.begin() + 2 * d);
    return got == offered(n, u::samples_to_nearest_centroid_distances(s, s + n * d, d, one));
}
