#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace h = ffcl::common::math::heuristics;
using PM = ds::PairwiseDistanceMatrix<SIt>;
using PD = ds::PairwiseDistanceMatrixDynamic<SIt>;
using FV = ds::FeaturesVector<D, 0>;
using FV3 = ds::FeaturesVector<D, 3>;
using FM = ds::FeaturesMask<std::size_t, 0>;
static D dist(SIt s, std::size_t d, std::size_t i, std::size_t j) { return h::auto_distance(s + i * d, s + i * d + d, s + j * d, s + j * d + d); }
//@ rows
bool law_P01_rows(SIt s, std::size_t n, std::size_t d) { if (d == 0) return true; const PM m(s, s + n * d, d); const PD p(s, s + n * d, d); return m.n_rows() == n && m.n_columns() == n && p.n_rows() == n && p.n_columns() == n; }
//@ rows_tuple
bool law_P01_rows_tuple(SIt s, std::size_t n, std::size_t d) { if (d == 0) return true; const PM m(std::make_tuple(s, s + n * d, d)); const PD p(std::make_tuple(s, s + n * d, d)); return m.n_rows() == n && m.n_columns() == n && p.n_rows() == n && p.n_columns() == n; }
//@ entry
bool law_P01_entry(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { if (d == 0 || !(i < n) || !(j < i)) return true; const PM m(s, s + n * d, d); return m(i, j) == dist(s, d, i, j); }
//@ entry_tuple
bool law_P01_entry_tuple(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { if (d == 0 || !(i < n) || !(j < i)) return true; const PM m(std::make_tuple(s, s + n * d, d)); return m(i, j) == dist(s, d, i, j); }
//@ symmetric
bool law_P01_symmetric(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { if (d == 0 || !(i < n) || !(j < n)) return true; const PM m(s, s + n * d, d); return m(i, j) == m(j, i); }
//@ diagonal
bool law_P01_diagonal(SIt s, std::size_t n, std::size_t d, std::size_t i) { if (d == 0 || !(i < n)) return true; const PM m(s, s + n * d, d); return m(i, i) == 0; }
//@ dyn
bool law_P01_dynamic(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { const PD m(s, s + n * d, d); return m(i, j) == dist(s, d, i, j); }
//@ dyn_tuple
bool law_P01_dynamic_tuple(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { const PD m(std::make_tuple(s, s + n * d, d)); return m(i, j) == dist(s, d, i, j); }
//@ dyn_sym
bool law_P01_dynamic_symmetric(SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { const PD m(s, s + n * d, d); return m(i, j) == m(j, i) && m(i, i) == 0; }
//@ size_alloc
//@ vec
bool law_P01_vector(const std::vector<D>& x, std::size_t i) { if (!(i < x.size())) return true; const FV v(x); FV w = v; FV u = std::move(w); return v.size() == x.size() && v[i] == x[i] && *(v.begin() + i) == x[i] && v.end() - v.begin() == x.size() && *(v.cbegin() + i) == x[i] && v.cend() - v.cbegin() == x.size() && u.size() == x.size() && u[i] == x[i]; }
//@ vec_iter
bool law_P01_vector_iterators(std::vector<D>::iterator a, std::size_t n, std::size_t i) { if (!(i < n)) return true; FV v(a, a + n); return v.size() == n && v[i] == a[i]; }
//@ vec_write
bool law_P01_vector_write(const std::vector<D>& x, std::size_t i, std::size_t j, D y) { if (!(i < x.size() && j < x.size())) return true; FV v(x); v[j] = y; return v.size() == x.size() && v[i] == (i == j ? y : x[i]); }
//@ vec3
bool law_P01_vector_static(D a, D b, D c) { const FV3 v(a, b, c); return v.size() == 3 && v[0] == a && v[1] == b && v[2] == c && v.end() - v.begin() == 3 && *(v.begin() + 1) == b; }
//@ mask
bool law_P01_mask(std::size_t n, std::size_t i) { if (!(i < n)) return true; const FM m(n); return m.size() == n && m[i] == i && *(m.begin() + i) == i && m.end() - m.begin() == n; }
//@ mask_vec
bool law_P01_mask_vector(const std::vector<std::size_t>& x, std::size_t i) { if (!(i < x.size())) return true; const FM m(x); return m.size() == x.size() && m[i] == x[i]; }
//@ mask_static
bool law_P01_mask_static() { const ds::FeaturesMask<std::size_t, 3> m; return m.size() == 3 && m[0] == 0 && m[1] == 1 && m[2] == 2; }

//@ entry_parallel
bool law_P01_entry_parallel(PM& m, SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { if (d == 0 || !(i < n) || !(j < i)) return true; const auto v = m.compute_pairwise_distances_parallel(s, s + n * d, d); return v.size() == n * (n - 1) / 2 && v[i * (i - 1) / 2 + j] == dist(s, d, i, j); }
//@ entry_sequential
bool law_P01_entry_sequential(PM& m, SIt s, std::size_t n, std::size_t d, std::size_t i, std::size_t j) { if (d == 0 || !(i < n) || !(j < i)) return true; const auto v = m.compute_pairwise_distances_sequential(s, s + n * d, d); return v.size() == n * (n - 1) / 2 && v[i * (i - 1) / 2 + j] == dist(s, d, i, j); }
