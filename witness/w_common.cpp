#include "prelude.hpp"
namespace c = ffcl::common;
namespace h = ffcl::common::math::heuristics;
namespace st = ffcl::common::math::statistics;
namespace la = ffcl::common::math::linear_algebra;
namespace al = ffcl::common::algorithms;
void w_utils(const std::vector<D>& v, const std::vector<std::size_t>& ix, D x, D y) {
    c::abs(x); c::equality(x, y); c::inequality(x, y); c::equality(1, 2); c::division(x, y); c::division(x, y, x);
    c::compute_center_with_left_rounding(std::size_t(1), std::size_t(2)); c::compute_size_from_center_with_left_rounding(std::size_t(1), std::size_t(2));
    c::compute_center_with_left_rounding(x, y); c::compute_size_from_center_with_left_rounding(x, y);
    c::infinity<D>(); c::infinity<std::size_t>(); c::to_type<D>(v.begin(), v.end());
    c::are_containers_equal(v, v); c::are_containers_equal(v.begin(), v.end(), v.begin());
    c::count_matches(v.begin(), v.end(), v.begin()); c::count_matches_for_value(v.begin(), v.end(), v.begin(), x);
    c::permutation_from_indices(ix, v); c::remap_ranges_from_indices(ix, v, std::size_t(2)); c::get_n_samples(v.begin(), v.end(), 2);
    c::is_element_in(v.begin(), v.end(), x); c::is_element_not_in(v.begin(), v.end(), x);
    std::vector<std::pair<std::size_t, D>> p; c::is_element_in_first(p.begin(), p.end(), 0); c::is_element_not_in_first(p.begin(), p.end(), 0);
}
void w_dist(SIt a, SIt b, SIt p, SIt q) {
    h::squared_euclidean_distance_from_origin(a, b); h::squared_euclidean_distance(a, b, p, q);
    h::euclidean_distance_from_origin(a, b); h::euclidean_distance(a, b, p, q);
    h::manhattan_distance_from_origin(a, b); h::manhattan_distance(a, b, p, q);
    h::cosine_similarity(a, b, p, q); h::auto_distance_from_origin(a, b); h::auto_distance(a, b, p, q);
    std::vector<int> i; std::vector<unsigned> u; std::vector<std::size_t> z;
    h::manhattan_distance(i.cbegin(), i.cend(), i.cbegin(), i.cend()); h::auto_distance(i.cbegin(), i.cend(), i.cbegin(), i.cend());
    h::unsigned_manhattan_distance(u.cbegin(), u.cend(), u.cbegin(), u.cend()); h::auto_distance(u.cbegin(), u.cend(), u.cbegin(), u.cend());
    h::unsigned_manhattan_distance(z.cbegin(), z.cend(), z.cbegin(), z.cend());
    h::levenshtein_distance(i.cbegin(), i.cend(), i.cbegin(), i.cend());
}
void w_silhouette(SIt a, SIt b, IIt l, IIt m) {
    h::get_cluster_sizes(l, m); h::cohesion(a, b, 2, l, m); h::separation(a, b, 2, l, m); h::silhouette(a, b, 2, l, m); h::get_average_silhouette(a, b);
}
void w_linalg(SIt a, SIt b, SIt p, SIt q) {
    la::translate_right_range_to_origin(a, b, p, q); la::transpose_sequential(a, b, 2); la::transpose_parallel_openmp(a, b, 2); la::transpose(a, b, 2);
}
void w_stats(SIt a, SIt b, IIt i, IIt j, const std::vector<std::size_t>& mask) {
    st::normalize_min_max(a, b); st::normalize(a, b); std::vector<D> x, y; st::min_container_inplace_left(x, y);
    st::argmin(a, b); st::argmax(a, b); st::get_min_index_value_pair(a, b); st::get_max_index_value_pair(a, b);
    st::get_second_max_index_value_pair(x.begin(), x.end()); st::find_nth_smallest_index_and_element(a, b, 1);
    st::compute_mean_per_feature(a, b, 2); st::compute_mean_per_feature(i, j, a, b, 2); st::compute_mean_per_feature(i, j, a, b, 2, mask);
    st::compute_variance_per_feature(a, b, 2); st::compute_variance_per_feature(i, j, a, b, 2); st::compute_variance_per_feature(i, j, a, b, 2, mask);
    st::argmax_variance_per_feature(a, b, 2); st::argmax_variance_per_feature(i, j, a, b, 2); st::argmax_variance_per_feature(i, j, a, b, 2, mask);
    st::compute_variance(a, b);
}
void w_sorting(IIt i, IIt j, SIt a, SIt b) {
    al::median_index_of_three(i, j, a, b, 2, 0); al::partition_around_pivot_index(i, j, a, b, 2, 0, 0); al::quickselect(i, j, a, b, 2, 0, 0); al::quicksort(i, j, a, b, 2, 0, 0);
}
