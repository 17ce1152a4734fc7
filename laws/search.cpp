#include "prelude.hpp"
namespace u = kmeans::utils;
namespace h = ffcl::common::math::heuristics;
namespace b = ffcl::search::buffer;
namespace bounds = ffcl::datastruct::bounds;
template <class F> bool some(std::size_t n, F f) { bool x = false; for (std::size_t i = 0; i < n; ++i) x = x || f(i); return x; }
template <class F> D total(std::size_t n, F f) { D s = 0; for (std::size_t i = 0; i < n; ++i) s += f(i); return s; }
template <class F> std::size_t tally(std::size_t n, F f) { std::size_t s = 0; for (std::size_t i = 0; i < n; ++i) if (f(i)) ++s; return s; }
template <class F> D least(std::size_t n, F f) { D s = std::numeric_limits<D>::infinity(); for (std::size_t i = 0; i < n; ++i) { const D x = f(i); if (x < s) s = x; } return s; }
using V  = std::vector<D>;
using VI = std::vector<std::size_t>;
using UB = bounds::UnboundedBallView<SIt>;
using BV = bounds::BallView<SIt>;
static D dist(SIt s, std::size_t d, std::size_t i, SIt q) { return h::auto_distance(s + i * d, s + i * d + d, q, q + d); }
// a buffer holding the pairs (x, v), its caches set to the extrema
template <class B> void fill(B& a, const VI& x, const V& v, std::size_t lo, std::size_t hi) {
    a.indices_ = x; a.distances_ = v; a.closest_index_ = x[lo]; a.closest_distance_ = v[lo]; a.buffer_index_of_furthest_index_ = hi; a.furthest_distance_ = v[hi];
}
template <class F> std::size_t where_least(std::size_t n, F f) { std::size_t w = 0; D s = std::numeric_limits<D>::infinity(); for (std::size_t i = 0; i < n; ++i) { const D x = f(i); if (x < s) { s = x; w = i; } } return w; }
//@ fresh
bool law_N01_fresh(SIt q, std::size_t d, std::size_t cap, std::size_t i, D e) {
    b::Unsorted<SIt> a(q, q + d, cap);
    const bool was = a.empty() && a.size() == 0 && a.max_capacity() == cap && a.centroid_begin() == q && a.centroid_end() == q + d;
    a.update(i, e);
    return was && a.size() == 1 && a.indices()[0] == i && a.distances()[0] == e && a.closest_index() == i && a.closest_distance() == e && a.furthest_index() == i && a.furthest_distance() == e && a.distances().size() == 1;
}
//@ grow
bool law_N01_grow(SIt q, std::size_t d, const VI& x, const V& v, std::size_t cap, std::size_t i, D e, std::size_t m) {
    if (x.size() == 0 || v.size() != x.size() || !(x.size() < cap) || !(m < x.size())) return true;
    b::Unsorted<SIt> a(q, q + d, cap);
    const auto lo = where_least(v.size(), [&](auto j) { return v[j]; }), hi = where_least(v.size(), [&](auto j) { return -v[j]; });
    fill(a, x, v, lo, hi);
    a.update(i, e);
    const auto n = x.size();
    return a.size() == n + 1 && a.distances_.size() == n + 1 && a.indices_[m] == x[m] && a.distances_[m] == v[m] && a.indices_[n] == i && a.distances_[n] == e &&
           a.closest_index() == (e < v[lo] ? i : x[lo]) && a.closest_distance() == std::min(e, v[lo]) && a.furthest_distance() == std::max(e, v[hi]) && a.distances_[a.buffer_index_of_furthest_index_] == a.furthest_distance() && a.furthest_index() == a.indices_[a.buffer_index_of_furthest_index_];
}
//@ replace
bool law_N01_replace(SIt q, std::size_t d, const VI& x, const V& v, std::size_t i, D e, std::size_t m) {
    if (x.size() == 0 || v.size() != x.size() || !(m < x.size())) return true;
    b::Unsorted<SIt> a(q, q + d, x.size());
    const auto lo = where_least(v.size(), [&](auto j) { return v[j]; }), hi = where_least(v.size(), [&](auto j) { return -v[j]; });
    fill(a, x, v, lo, hi);
    a.update(i, e);
    const auto n = x.size();
    const bool in = e < v[hi];
    return a.size() == n && a.distances_.size() == n && a.indices_[m] == (in && m == hi ? i : x[m]) && a.distances_[m] == (in && m == hi ? e : v[m]);
}
//@ replace_extrema
bool law_N01_replace_extrema(SIt q, std::size_t d, const VI& x, const V& v, std::size_t i, D e) {
    if (x.size() == 0 || v.size() != x.size()) return true;
    b::Unsorted<SIt> a(q, q + d, x.size());
    const auto lo = where_least(v.size(), [&](auto j) { return v[j]; }), hi = where_least(v.size(), [&](auto j) { return -v[j]; });
    fill(a, x, v, lo, hi);
    a.update(i, e);
    const auto n = x.size();
    return a.closest_index() == (e < v[lo] ? i : x[lo]) && a.closest_distance() == std::min(e, v[lo]) &&
           a.furthest_distance() == -least(n, [&](auto j) { return -a.distances_[j]; }) && a.distances_[a.buffer_index_of_furthest_index_] == a.furthest_distance() && a.buffer_index_of_furthest_index_ < n && a.furthest_index() == a.indices_[a.buffer_index_of_furthest_index_];
}
//@ offered
bool law_N02_unsorted(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, std::size_t cap) {
    b::Unsorted<SIt> a(q, q + d, cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return uf(1, x[i], dist(s, d, x[i], q)); });
}
//@ offered_ball
bool law_N02_unsorted_ball(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, D r, std::size_t cap) {
    b::Unsorted<SIt, BV> a(BV(q, q + d, r), cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return dist(s, d, x[i], q) < r ? uf(1, x[i], dist(s, d, x[i], q)) : 0.; });
}
//@ offered_memory
bool law_N02_memory(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, const std::unordered_set<std::size_t>& seen, std::size_t cap) {
    b::WithMemory<SIt> a(q, q + d, seen, cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return seen.count(x[i]) == 0 ? uf(1, x[i], dist(s, d, x[i], q)) : 0.; });
}
//@ offered_memory_ball
bool law_N02_memory_ball(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, D r, const std::unordered_set<std::size_t>& seen, std::size_t cap) {
    b::WithMemory<SIt, BV> a(BV(q, q + d, r), seen, cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return seen.count(x[i]) == 0 && dist(s, d, x[i], q) < r ? uf(1, x[i], dist(s, d, x[i], q)) : 0.; });
}
//@ offered_union
bool law_N02_union(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, const ffcl::datastruct::UnionFind<std::size_t>& f, std::size_t rep, std::size_t cap) {
    b::WithUnionFind<SIt> a(q, q + d, f, rep, cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return f.find(x[i]) != f.find(rep) ? uf(1, x[i], dist(s, d, x[i], q)) : 0.; });
}
//@ update_memory
bool law_N02_update_memory(SIt q, std::size_t d, const std::unordered_set<std::size_t>& seen, std::size_t cap, std::size_t i, D e) {
    b::WithMemory<SIt> a(q, q + d, seen, cap);
    ghost(a) = 0;
    a.update(i, e);
    return ghost(a) == (seen.count(i) == 0 ? uf(1, i, e) : 0.);
}
//@ update_union
bool law_N02_update_union(SIt q, std::size_t d, const ffcl::datastruct::UnionFind<std::size_t>& f, std::size_t rep, std::size_t cap, std::size_t i, D e) {
    b::WithUnionFind<SIt> a(q, q + d, f, rep, cap);
    ghost(a) = 0;
    a.update(i, e);
    return ghost(a) == (f.find(i) != f.find(rep) ? uf(1, i, e) : 0.);
}
//@ offered_midway
// a buffer that is not full, whatever it holds already
bool law_N02_unsorted_midway(b::Unsorted<SIt>& a, CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d) {
    if (!(a.indices_.size() < a.max_capacity_)) return true;
    ghost(a) = 0;
    const SIt q = a.centroid_begin();
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return uf(1, x[i], h::auto_distance(s + x[i] * d, s + x[i] * d + d, q, a.centroid_end())); });
}
//@ offered_memory_moved
bool law_N02_memory_moved(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, const std::unordered_set<std::size_t>& seen, std::size_t cap) {
    b::WithMemory<SIt> a(q, q + d, std::unordered_set<std::size_t>(seen), cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return seen.count(x[i]) == 0 ? uf(1, x[i], dist(s, d, x[i], q)) : 0.; });
}
//@ offered_memory_empty
bool law_N02_memory_empty(CIt x, std::size_t m, SIt s, std::size_t n, std::size_t d, SIt q, std::size_t cap) {
    b::WithMemory<SIt> a(q, q + d, cap);
    ghost(a) = 0;
    a.partial_search(x, x + m, s, s + n * d, d);
    return ghost(a) == total(m, [&](auto i) { return uf(1, x[i], dist(s, d, x[i], q)); });
}
