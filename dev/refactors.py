EDITS = []


def edit(name, f, pids, *pairs):
    EDITS.append((name, f, pids.split(), [(pairs[i], pairs[i + 1]) for i in range(0, len(pairs), 2)]))


U = "kmeans/KMeansUtils.hpp"
edit("nearest idx: helper distance", U, "K01 K02 K03", """        // distance buffer for a given data sample to each cluster
        auto        min_distance = ffcl::common::infinity<DataType>();
        std::size_t min_index    = 0;

        for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
            const DataType sample_to_centroid_distance = ffcl::common::math::heuristics::auto_distance(
                samples_range_first + sample_index * n_features,
                samples_range_first + sample_index * n_features + n_features,
                centroids.begin() + centroid_index * n_features,
                centroids.begin() + centroid_index * n_features + n_features);

            if (sample_to_centroid_distance < min_distance) {
                min_distance = sample_to_centroid_distance;
                min_index    = centroid_index;
            }
        }
        nearest_centroid_indices[sample_index] = min_index;""", """        const auto sample_first = samples_range_first + sample_index * n_features;
        const auto distance_to  = [&](std::size_t centroid_index) {
            const auto centroid_first = centroids.begin() + centroid_index * n_features;
            return ffcl::common::math::heuristics::auto_distance(
                sample_first, sample_first + n_features, centroid_first, centroid_first + n_features);
        };
        std::size_t best_index = 0;
        DataType    best       = ffcl::common::infinity<DataType>();
        std::size_t c          = 0;
        while (c != n_centroids) {
            const auto current = distance_to(c);
            if (!(current >= best)) {
                best       = current;
                best_index = c;
            }
            ++c;
        }
        nearest_centroid_indices[sample_index] = best_index;""")
edit("nearest dist: std::min", U, "K01 K02 K04", """            if (nearest_candidate < min_distance) {
                min_distance = nearest_candidate;
            }
        }
        nearest_centroid_distances""", """            min_distance = std::min(min_distance, nearest_candidate);
        }
        nearest_centroid_distances""")
edit("nearest dist: push_back", U, "K01 K02 K04", """    auto nearest_centroid_distances = std::vector<DataType>(n_samples);
""", """    std::vector<DataType> nearest_centroid_distances;
    nearest_centroid_distances.reserve(n_samples);
""", "        nearest_centroid_distances[sample_index] = min_distance;", "        nearest_centroid_distances.push_back(min_distance);")
edit("second: swap order of tests", U, "K01 K03", """            if (second_nearest_candidate < first_min_distance) {
                second_min_distance = first_min_distance;
                first_min_distance  = second_nearest_candidate;

            } else if (second_nearest_candidate < second_min_distance) {
                second_min_distance = second_nearest_candidate;
            }""", """            if (second_nearest_candidate >= first_min_distance) {
                second_min_distance = std::min(second_nearest_candidate, second_min_distance);
                continue;
            }
            second_min_distance = first_min_distance;
            first_min_distance  = second_nearest_candidate;""")
edit("sizes: index loop", U, "K01 K02 K03", """    for (auto centroid_index_iter = samples_to_nearest_centroid_indices_first;
         ffcl::common::inequality(centroid_index_iter, samples_to_nearest_centroid_indices_last);
         ++centroid_index_iter) {
        ++cluster_sizes[*centroid_index_iter];
    }""", """    const std::size_t n_samples =
        std::distance(samples_to_nearest_centroid_indices_first, samples_to_nearest_centroid_indices_last);
    for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
        cluster_sizes[samples_to_nearest_centroid_indices_first[sample_index]] += 1;
    }""")
edit("sizes: for_each", U, "K01 K02", """    for (auto centroid_index_iter = samples_to_nearest_centroid_indices_first;
         ffcl::common::inequality(centroid_index_iter, samples_to_nearest_centroid_indices_last);
         ++centroid_index_iter) {
        ++cluster_sizes[*centroid_index_iter];
    }""", """    std::for_each(samples_to_nearest_centroid_indices_first,
                  samples_to_nearest_centroid_indices_last,
                  [&cluster_sizes](const auto& centroid_index) { ++cluster_sizes[centroid_index]; });""")
edit("sums: nested loop", U, "K01 K02 K03", """        std::transform(cluster_positions_sum.begin() + assigned_centroid_index * n_features,
                       cluster_positions_sum.begin() + assigned_centroid_index * n_features + n_features,
                       samples_range_first + sample_index * n_features,
                       cluster_positions_sum.begin() + assigned_centroid_index * n_features,
                       std::plus<>());""", """        for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
            cluster_positions_sum[assigned_centroid_index * n_features + feature_index] +=
                samples_range_first[sample_index * n_features + feature_index];
        }""")
edit("neighbor: continue", U, "K01 K03", """            if (row_index != other_row_index) {
                const auto nearest_candidate = ffcl::common::math::heuristics::auto_distance(
                    data_first + row_index * n_features,
                    data_first + row_index * n_features + n_features,
                    data_first + other_row_index * n_features,
                    data_first + other_row_index * n_features + n_features);

                if (nearest_candidate < min_distance) {
                    min_distance = nearest_candidate;
                }
            }""", """            if (row_index == other_row_index) {
                continue;
            }
            const auto nearest_candidate = ffcl::common::math::heuristics::auto_distance(
                data_first + row_index * n_features,
                data_first + (row_index + 1) * n_features,
                data_first + other_row_index * n_features,
                data_first + (other_row_index + 1) * n_features);
            min_distance = nearest_candidate < min_distance ? nearest_candidate : min_distance;""")
edit("neighbor: symmetric distance", U, "K01", """                    data_first + row_index * n_features,
                    data_first + row_index * n_features + n_features,
                    data_first + other_row_index * n_features,
                    data_first + other_row_index * n_features + n_features);""", """                    data_first + other_row_index * n_features,
                    data_first + other_row_index * n_features + n_features,
                    data_first + row_index * n_features,
                    data_first + row_index * n_features + n_features);""")
L = "kmeans/Lloyd.hpp"
edit("lloyd: accumulate", L, "K02", """    return std::reduce(buffers_ptr_->samples_to_nearest_centroid_distances_.begin(),
                       buffers_ptr_->samples_to_nearest_centroid_distances_.end(),
                       static_cast<DataType>(0),
                       std::plus<>());""", """    DataType loss = 0;
    for (const auto& distance : buffers_ptr_->samples_to_nearest_centroid_distances_) {
        loss += distance;
    }
    return loss;""")
edit("lloyd: centroid loops", L, "K02", """            std::transform(cluster_position_sums.begin() + feature_index_start,
                           cluster_position_sums.begin() + feature_index_end,
                           centroids_.begin() + feature_index_start,
                           [cluster_size = cluster_sizes[centroid_index]](const auto& sum) {
                               return sum / static_cast<DataType>(cluster_size);
                           });""", """            const auto cluster_size = static_cast<DataType>(cluster_sizes[centroid_index]);
            for (auto feature_index = feature_index_start; feature_index < feature_index_end; ++feature_index) {
                centroids_[feature_index] = cluster_position_sums[feature_index] / cluster_size;
            }""")
edit("lloyd: inline update_clusters", L, "K02", """    update_clusters();
    // update all""", """    {
        const auto n_features          = std::get<2>(dataset_descriptor_);
        const auto n_centroids         = centroids_.size() / n_features;
        auto&      b                   = *buffers_ptr_;
        b.cluster_position_sums_ = kmeans::utils::compute_cluster_positions_sum(std::get<0>(dataset_descriptor_),
                                                                                std::get<1>(dataset_descriptor_),
                                                                                n_features,
                                                                                b.samples_to_nearest_centroid_indices_.begin(),
                                                                                n_centroids);
        b.cluster_sizes_ = kmeans::utils::compute_cluster_sizes(b.samples_to_nearest_centroid_indices_.begin(),
                                                                b.samples_to_nearest_centroid_indices_.end(),
                                                                n_centroids);
    }
    // update all""")
H = "kmeans/Hamerly.hpp"
edit("hamerly: early continue", H, "K03", """        // first bound test
        if (samples_to_nearest_centroid_distances[sample_index] > upper_bound_comparison) {
            const auto""", """        // first bound test
        if (!(samples_to_nearest_centroid_distances[sample_index] > upper_bound_comparison)) {
            continue;
        }
        {
            const auto""")
edit("hamerly: upper bound alias", H, "K03", """        auto assigned_centroid_index = samples_to_nearest_centroid_indices[sample_index];
        // triangular""", """        auto  assigned_centroid_index = samples_to_nearest_centroid_indices[sample_index];
        auto& current_upper_bound     = samples_to_nearest_centroid_distances[sample_index];
        // triangular""", "        if (samples_to_nearest_centroid_distances[sample_index] > upper_bound_comparison) {\n            const auto", "        if (current_upper_bound > upper_bound_comparison) {\n            const auto",
     "            samples_to_nearest_centroid_distances[sample_index] = upper_bound;\n\n            // second bound test\n            if (samples_to_nearest_centroid_distances[sample_index] > upper", "            current_upper_bound = upper_bound;\n\n            // second bound test\n            if (upper_bound > upper")
edit("hamerly: sums in one loop", H, "K03", """                    // subtract the current sample to the centroid it was previously assigned to
                    std::transform(
                        cluster_position_sums.begin() + previous_assigned_centroid_index * n_features,
                        cluster_position_sums.begin() + previous_assigned_centroid_index * n_features + n_features,
                        samples_range_first + sample_index * n_features,
                        cluster_position_sums.begin() + previous_assigned_centroid_index * n_features,
                        std::minus<>());

                    // add the current sample to the centroid it is now assigned to
                    std::transform(cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                   cluster_position_sums.begin() + assigned_centroid_index * n_features + n_features,
                                   samples_range_first + sample_index * n_features,
                                   cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                   std::plus<>());
""", """                    for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
                        const auto value = samples_range_first[sample_index * n_features + feature_index];
                        cluster_position_sums[previous_assigned_centroid_index * n_features + feature_index] -= value;
                        cluster_position_sums[assigned_centroid_index * n_features + feature_index] += value;
                    }
""")
edit("hamerly: bounds split loops", H, "K03", """        // move the upper bound by the same distance its assigned centroid has moved
        samples_to_nearest_centroid_distances[sample_index] += centroid_velocities[assigned_centroid_index];

        samples_to_second_nearest_centroid_distances[sample_index] -=
            (assigned_centroid_index == furthest_moving_centroid_index) ? second_furthest_moving_centroid_distance
                                                                        : furthest_moving_centroid_distance;
    }
""", """        // move the upper bound by the same distance its assigned centroid has moved
        samples_to_nearest_centroid_distances[sample_index] += centroid_velocities[assigned_centroid_index];
    }
    for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
        auto distance = furthest_moving_centroid_distance;
        if (samples_to_nearest_centroid_indices[sample_index] == furthest_moving_centroid_index) {
            distance = second_furthest_moving_centroid_distance;
        }
        samples_to_second_nearest_centroid_distances[sample_index] =
            samples_to_second_nearest_centroid_distances[sample_index] - distance;
    }
""")
P = "kmeans/KMeansPlusPlus.hpp"
edit("plusplus: resize+copy", P, "K04", """        centroids.insert(centroids.end(),
                         samples_range_first + random_index * n_features,
                         samples_range_first + random_index * n_features + n_features);""", """        for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
            centroids.push_back(samples_range_first[random_index * n_features + feature_index]);
        }""")
edit("plusplus: counting down", P, "K04", """    for (std::size_t centroid_index = 1; centroid_index < n_centroids; ++centroid_index) {
        // recompute the distances from each sample to its closest centroid
        auto nearest_centroid_distances""", """    for (std::size_t remaining = n_centroids; remaining > 1; --remaining) {
        // recompute the distances from each sample to its closest centroid
        const auto nearest_centroid_distances""")
FP = "kmedoids/FasterPAM.hpp"
edit("pam: distance helper lambda", FP, "D02", """        // candidate_to_other_distance
        const auto distance_oc =
            std::holds_alternative<FirstVariantType>(storage_variant_)
                ? std::get<FirstVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index)
                : std::get<SecondVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index);

        // other_sample_to_nearest_medoid_index
        const auto& index_1""", """        // candidate_to_other_distance
        const auto distance_oc = std::visit(
            [&](const auto& storage) -> DataType { return storage(medoid_candidate_index, other_sample_index); },
            storage_variant_);

        // other_sample_to_nearest_medoid_index
        const auto& index_1""")
edit("pam: gains rearranged", FP, "D02", """        if (distance_oc < distance_1) {
            delta_td_xc += distance_oc - distance_1;
            // ∆TD{+nearest(o)} ← ∆TD{+nearest(o)} + d{nearest(o)} − d{second(o)};
            delta_td_mi[index_1] += distance_1 - distance_2;

        } else if (distance_oc < distance_2) {
            // ∆TD{+nearest(o)} ← ∆TD{+nearest(o)} + d_oj − d{second(o)};
            delta_td_mi[index_1] += distance_oc - distance_2;
        }""", """        if (distance_oc >= distance_2) {
            continue;
        }
        const auto kept = std::max(distance_oc, distance_1);
        delta_td_xc -= distance_1 - std::min(distance_oc, distance_1);
        delta_td_mi[index_1] -= distance_2 - kept;""")
edit("pam: argmin inline", FP, "D02", """    const auto [best_swap_index, best_swap_distance] =
        common::math::statistics::get_min_index_value_pair(delta_td_mi.begin(), delta_td_mi.end());

    return std::make_pair(delta_td_xc + best_swap_distance, best_swap_index);""", """    std::size_t best_swap_index = 0;
    for (std::size_t medoid_index = 1; medoid_index < delta_td_mi.size(); ++medoid_index) {
        if (delta_td_mi[medoid_index] < delta_td_mi[best_swap_index]) {
            best_swap_index = medoid_index;
        }
    }
    return std::make_pair(delta_td_xc + delta_td_mi[best_swap_index], best_swap_index);""")
edit("pam: loss afterwards", FP, "D02", """        loss += distance_1;
    }
    return loss;""", """    }
    for (std::size_t other_sample_index = 0; other_sample_index < n_samples_; ++other_sample_index) {
        loss += samples_to_nearest_medoid_distances[other_sample_index];
    }
    return loss;""")
edit("pam: redundant store dropped", FP, "D02", """            if (distance_oc < distance_2) {
                index_1    = best_swap_index;
                distance_1 = distance_oc;

            } else {""", """            if (distance_oc < distance_2) {
                distance_1 = distance_oc;

            } else {""")
PU = "kmedoids/PAMUtils.hpp"
edit("medoid idx: iterators", PU, "D01 D02", """        for (std::size_t idx = 0; idx < medoids.size(); ++idx) {
            const auto nearest_candidate = compute_distance(medoids[idx], sample_index);

            if (nearest_candidate < first_min_distance) {
                first_min_distance = nearest_candidate;
                first_min_index    = idx;
            }
        }
        // assign the current sample with its nth nearest medoid distance
        nearest_medoid_indices""", """        std::size_t idx = 0;
        for (const auto medoid : medoids) {
            const auto nearest_candidate = compute_distance(sample_index, medoid);

            if (first_min_distance > nearest_candidate) {
                first_min_index    = idx;
                first_min_distance = nearest_candidate;
            }
            ++idx;
        }
        // assign the current sample with its nth nearest medoid distance
        nearest_medoid_indices""")
KM = "kmedoids/KMedoids.hpp"
edit("kmedoids fit: equality operator", KM, "K05", """            if (options_.early_stopping_ &&
                common::are_containers_equal(medoids_candidates[medoid_index], medoids_candidates_prev[medoid_index])) {
                if (patience_iteration == options_.patience_) {
                    break;
                }
                ++patience_iteration;

            } else {
                // reset the patience iteration to zero if the medoids have changed
                patience_iteration = 0;
            }
            // save the results from the current step
            medoids_candidates_prev[medoid_index] = medoids_candidates[medoid_index];
        }
#if defined(VERBOSE) && VERBOSE == true
        // final loss""", """            const bool unchanged =
                common::are_containers_equal(medoids_candidates[medoid_index], medoids_candidates_prev[medoid_index]);
            if (options_.early_stopping_) {
                if (unchanged && patience_iteration == options_.patience_) {
                    break;
                }
                patience_iteration = unchanged ? patience_iteration + 1 : 0;
            }
            // save the results from the current step
            medoids_candidates_prev[medoid_index] = medoids_candidates[medoid_index];
        }
#if defined(VERBOSE) && VERBOSE == true
        // final loss""")
edit("kmedoids fit: while loop", KM, "K05", """        for (std::size_t iteration = 0; iteration < options_.max_iter_; ++iteration) {
#if defined(VERBOSE) && VERBOSE == true
            // loss before step to also get the initial loss
            std::cout << kmedoids_algorithm.total_deviation() << " ";
#endif

            medoids_candidates[medoid_index] = kmedoids_algorithm.step();

            if (options_.early_stopping_ &&
                common::are_containers_equal(medoids_candidates[medoid_index], medoids_candidates_prev[medoid_index])) {
                if (patience_iteration == options_.patience_) {
                    break;
                }
                ++patience_iteration;

            } else {
                // reset the patience iteration to zero if the medoids have changed
                patience_iteration = 0;
            }
            // save the results from the current step
            medoids_candidates_prev[medoid_index] = medoids_candidates[medoid_index];
        }
#if defined(VERBOSE) && VERBOSE == true
        // last loss""", """        std::size_t remaining = options_.max_iter_;
        while (remaining--) {
            medoids_candidates[medoid_index] = kmedoids_algorithm.step();

            if (options_.early_stopping_ &&
                common::are_containers_equal(medoids_candidates[medoid_index], medoids_candidates_prev[medoid_index])) {
                if (patience_iteration >= options_.patience_) {
                    break;
                }
                patience_iteration++;

            } else {
                // reset the patience iteration to zero if the medoids have changed
                patience_iteration = 0;
            }
            // save the results from the current step
            medoids_candidates_prev[medoid_index] = medoids_candidates[medoid_index];
        }
#if defined(VERBOSE) && VERBOSE == true
        // last loss""")
DB = "dbscan/DBSCAN.hpp"
edit("dbscan: early continue", DB, "L01", """        if (!visited_indices[entry_point_candidate_index]) {
            // mark""", """        if (visited_indices[entry_point_candidate_index]) {
            continue;
        }
        {
            // mark""", """            } else {
                predictions[entry_point_candidate_index] = static_cast<LabelType>(SampleStatus::noise);
            }""", """            }""")
edit("dbscan: dense helper", DB, "L01", """            if (nn_buffer_query.size() > options_.min_samples_) {
                // we get""", """            const auto is_dense = [this](const auto& buffer) { return !(buffer.size() <= options_.min_samples_); };
            if (is_dense(nn_buffer_query)) {
                // we get""")
edit("dbscan: growth loop", DB, "L01", """                std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                             std::make_move_iterator(inner_neighbors_indices.end()),
                             std::back_inserter(neighbors_indices),
                             [&visited_indices, &predictions](const auto& inner_neighbor_index) {
                                 return !visited_indices[inner_neighbor_index] ||
                                        predictions[inner_neighbor_index] ==
                                            static_cast<LabelType>(SampleStatus::noise);
                             });""", """                for (const auto& inner_neighbor_index : inner_neighbors_indices) {
                    const bool settled = visited_indices[inner_neighbor_index] &&
                                         predictions[inner_neighbor_index] != static_cast<LabelType>(SampleStatus::noise);
                    if (!settled) {
                        neighbors_indices.push_back(inner_neighbor_index);
                    }
                }""")
edit("dbscan: label first", DB, "L01", """        // assign neighbor_index to a cluster if its not already the case
        if (predictions[neighbor_index] == static_cast<LabelType>(SampleStatus::noise)) {
            predictions[neighbor_index] = cluster_label;
        }
    }""", """    }""", """        // enter the condition if the current neighbor index hasnt been visited
""", """        // assign neighbor_index to a cluster if its not already the case
        if (predictions[neighbor_index] == static_cast<LabelType>(SampleStatus::noise)) {
            predictions[neighbor_index] = cluster_label;
        }
""")
edit("dbscan: while worklist", DB, "L01", """    for (std::size_t cluster_sample_index = 0; cluster_sample_index < neighbors_indices.size();
         ++cluster_sample_index) {
        const auto neighbor_index = neighbors_indices[cluster_sample_index];""", """    std::size_t cluster_sample_index = 0;
    while (cluster_sample_index < neighbors_indices.size()) {
        const auto neighbor_index = neighbors_indices[cluster_sample_index++];""")
HD = "hdbscan/HDBSCAN.hpp"
edit("hdbscan: named options", HD, "L02", """    const auto condensed_cluster_tree =
        CondensedClusterTreeType(single_linkage_cluster_tree_root,
                                 CondensedClusterTreeOptionsType()
                                     .min_cluster_size(options_.min_cluster_size_)
                                     .return_leaf_nodes(options_.return_leaf_nodes_)
                                     .allow_single_cluster(options_.allow_single_cluster_));

    return condensed_cluster_tree.predict();""", """    auto condensing_options = CondensedClusterTreeOptionsType();
    condensing_options.allow_single_cluster(options_.allow_single_cluster_);
    condensing_options.return_leaf_nodes(options_.return_leaf_nodes_);
    condensing_options.min_cluster_size(options_.min_cluster_size_);

    return CondensedClusterTreeType(single_linkage_cluster_tree_root, condensing_options).predict();""")
CD = "datastruct/graph/spanning_tree/CoreDistances.hpp"
edit("core: inline buffer", CD, "G02", """    for (std::size_t sample_index = 0; sample_index < searcher.n_samples(); ++sample_index) {
        auto nn_buffer_query = search::buffer::Unsorted(searcher.features_range_first(sample_index),
                                                        searcher.features_range_last(sample_index),
                                                        k_nearest_neighbors);

        core_distances[sample_index] = searcher(std::move(nn_buffer_query)).furthest_distance();
    }""", """    const std::size_t n_samples = searcher.n_samples();
    for (std::size_t sample_index = 0; sample_index != n_samples; sample_index++) {
        const auto nearest = searcher(search::buffer::Unsorted(searcher.features_range_first(sample_index),
                                                               searcher.features_range_last(sample_index),
                                                               k_nearest_neighbors));
        core_distances[sample_index] = nearest.furthest_distance();
    }""")
MS = "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"
edit("mst: copy via sort", MS, "G01 C04", """    auto mst_copy = mst;

    auto edge_comparator = [](const auto& edge_1, const auto& edge_2) {
        return std::get<2>(edge_1) < std::get<2>(edge_2);
    };

    std::sort(mst_copy.begin(), mst_copy.end(), edge_comparator);

    return mst_copy;""", """    EdgesList<Index, Distance> mst_copy(mst.begin(), mst.end());
    return sort(std::move(mst_copy));""")
edit("mst: greater", MS, "G01 C04", """auto sort(EdgesList<Index, Distance>&& mst) {
    auto edge_comparator = [](const auto& edge_1, const auto& edge_2) {
        return std::get<2>(edge_1) < std::get<2>(edge_2);
    };

    std::sort(mst.begin(), mst.end(), edge_comparator);""", """auto sort(EdgesList<Index, Distance>&& mst) {
    const auto by_weight = [](const auto& left, const auto& right) { return std::get<2>(right) > std::get<2>(left); };
    std::sort(std::begin(mst), std::end(mst), by_weight);""")
BO = "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
edit("boruvka: forest emplace", BO, "G01", """                representatives_to_components_map_[sample_index] = ComponentType{sample_index};""",
     """                representatives_to_components_map_.emplace(sample_index, ComponentType{sample_index});""")
edit("boruvka: map size", BO, "G01", """            return std::distance(representatives_to_components_map_.begin(), representatives_to_components_map_.end());""",
     """            return representatives_to_components_map_.size();""")
edit("boruvka: merge via if", BO, "G01", """            const auto [retained_representative, discarded_representative] =
                (representative_1 == common_representative) ? std::make_pair(representative_1, representative_2)
                                                            : std::make_pair(representative_2, representative_1);

            // move the indices from the component that will be discarded to the final one
            representatives_to_components_map_[retained_representative].insert(
                representatives_to_components_map_[retained_representative].end(),
                std::make_move_iterator(representatives_to_components_map_[discarded_representative].cbegin()),
                std::make_move_iterator(representatives_to_components_map_[discarded_representative].cend()));

            // now that the old component has been merged with the final one, clear it
            representatives_to_components_map_.erase(discarded_representative);

            // update the minimum spanning tree
            minimum_spanning_tree_.emplace_back(edge);""", """            minimum_spanning_tree_.push_back(edge);

            const auto retained_representative  = common_representative;
            const auto discarded_representative = representative_1 == retained_representative ? representative_2 : representative_1;

            auto&       retained  = representatives_to_components_map_[retained_representative];
            const auto& discarded = representatives_to_components_map_[discarded_representative];
            retained.insert(retained.end(), discarded.begin(), discarded.end());

            representatives_to_components_map_.erase(discarded_representative);""")
edit("boruvka: merge push_back loop", BO, "G01", """            representatives_to_components_map_[retained_representative].insert(
                representatives_to_components_map_[retained_representative].end(),
                std::make_move_iterator(representatives_to_components_map_[discarded_representative].cbegin()),
                std::make_move_iterator(representatives_to_components_map_[discarded_representative].cend()));
""", """            for (const auto& sample_index : representatives_to_components_map_[discarded_representative]) {
                representatives_to_components_map_[retained_representative].push_back(sample_index);
            }
""")
edit("boruvka: step local edge", BO, "G01", """            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);

            // update the current shortest edge if the nearest_neighbor_distance is indeed shortest than the current
            // shortest edge distance
            if (nearest_neighbor_distance < current_closest_edge_distance) {
                components_closest_edge[component_representative] =
                    EdgeType{query_index, nearest_neighbor_index, nearest_neighbor_distance};
            }
        }
    }""", """            auto& closest_edge = components_closest_edge[component_representative];
            if (std::get<2>(closest_edge) > nearest_neighbor_distance) {
                closest_edge = datastruct::mst::make_edge(query_index, nearest_neighbor_index, nearest_neighbor_distance);
            }
        }
    }""")
edit("boruvka: max nested", BO, "G01", """            const auto k_mutual_reachability_distance = std::max(
                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
""", """            const auto k_mutual_reachability_distance =
                std::max(nearest_neighbor_distance,
                         std::max(core_distances[nearest_neighbor_index], core_distances[query_index]));
""")
edit("boruvka: make_tree lambda", BO, "G01", """        while (forest.n_components() > 1) {
            std::cout << "forest.n_components(): " << forest.n_components() << "\n";
            counter += forest.n_components();

            if (forest.n_components() == 2) {
                dual_component_step_sequential(searcher, forest);

            } else {
                step_sequential(searcher, forest);
            }
        }""", """        for (auto n_components = forest.n_components(); n_components > 1; n_components = forest.n_components()) {
            std::cout << "forest.n_components(): " << n_components << "\n";
            counter += n_components;

            if (n_components > 2) {
                step_sequential(searcher, forest);
            } else {
                dual_component_step_sequential(searcher, forest);
            }
        }""")
UF = "datastruct/UnionFind.hpp"
edit("uf: two-pass find", UF, "U01", """    while (index != parents_[index]) {
        // set the label of each examined node to the representative
        const auto temp = parents_[index];
        parents_[index] = parents_[temp];
        index           = temp;
    }
    return index;""", """    Index root = index;
    while (root != parents_[root]) {
        root = parents_[root];
    }
    while (index != root) {
        const Index next = parents_[index];
        parents_[index]  = root;
        index            = next;
    }
    return root;""")
edit("uf: merge restructured", UF, "U01", """    if (representative_1 == representative_2) {
        return representative_1;

    } else if (ranks_[representative_1] == ranks_[representative_2]) {
        parents_[representative_2] = parents_[representative_1];
        ++ranks_[representative_1];
        return parents_[representative_1];

    } else if (ranks_[representative_1] > ranks_[representative_2]) {
        parents_[representative_2] = representative_1;
        return representative_1;

    } else {
        parents_[representative_1] = representative_2;
        return representative_2;
    }""", """    if (representative_1 == representative_2) {
        return representative_1;
    }
    auto winner = representative_1;
    auto loser  = representative_2;
    if (ranks_[winner] < ranks_[loser]) {
        std::swap(winner, loser);
    }
    if (ranks_[winner] == ranks_[loser]) {
        ranks_[winner] += 1;
    }
    parents_[loser] = winner;
    return winner;""")
SO = "common/algorithms/Sorting.hpp"
edit("sorting: value helper", SO, "Q01", """    const auto pivot_value = samples_range_first[indices_range_first[pivot_index] * n_features + feature_index];

    while (true) {
        do {
            ++left_index;
        } while (samples_range_first[indices_range_first[left_index] * n_features + feature_index] < pivot_value);

        do {
            --right_index;
        } while (pivot_value < samples_range_first[indices_range_first[right_index] * n_features + feature_index]);
""", """    const auto value_at = [&](auto position) {
        return samples_range_first[indices_range_first[position] * n_features + feature_index];
    };
    const auto pivot_value = value_at(pivot_index);

    for (;;) {
        ++left_index;
        while (value_at(left_index) < pivot_value) {
            ++left_index;
        }
        --right_index;
        while (value_at(right_index) > pivot_value) {
            --right_index;
        }
""")
edit("sorting: merged branches", SO, "Q01", """            // if left_value == pivot_value
            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
                         pivot_value)) {
                // dont swap if the left_index == pivot_index
                if (static_cast<std::size_t>(left_index) != pivot_index) {
                    // swap the ranges so that the range of the left index is put at the right of the pivot
                    std::iter_swap(indices_range_first + left_index, indices_range_first + pivot_index);
                    // the pivot index has now the value of the index it was swapped with (left index here)
                    pivot_index = left_index;
                }
            }
            // if the value at the left index is not equal to the value at the pivot index
            else {
                // swap the ranges so that the range of the left index is put at the right of the pivot
                std::iter_swap(indices_range_first + left_index, indices_range_first + pivot_index);
                // the pivot index has now the value of the index it was swapped with (left index here)
                pivot_index = left_index;
            }""", """            std::iter_swap(indices_range_first + left_index, indices_range_first + pivot_index);
            pivot_index = left_index;""")
edit("sorting: select order", SO, "Q01 T01", """        if (kth_smallest == pivot_index) {
            return std::make_pair(indices_range_first + pivot_index, indices_range_first + pivot_index + 1);

        } else if (kth_smallest < pivot_index) {
            right_index = pivot_index - 1;

        } else {
            left_index = pivot_index + 1;
        }""", """        if (pivot_index < kth_smallest) {
            left_index = pivot_index + 1;
        } else if (pivot_index > kth_smallest) {
            right_index = pivot_index - 1;
        } else {
            return std::make_pair(indices_range_first + kth_smallest, indices_range_first + kth_smallest + 1);
        }""")
edit("sorting: sort right first", SO, "Q01", """    quicksort(indices_range_first,
              indices_range_first + new_pivot_index,
              samples_range_first,
              samples_range_last,
              n_features,
              pivot_index_of_left_subrange,
              feature_index);

    quicksort(indices_range_first + new_pivot_index + 1,
              indices_range_last,
              samples_range_first,
              samples_range_last,
              n_features,
              pivot_index_of_right_subrange,
              feature_index);
""", """    const auto right_first = indices_range_first + new_pivot_index + 1;

    quicksort(right_first,
              indices_range_last,
              samples_range_first,
              samples_range_last,
              n_features,
              pivot_index_of_right_subrange,
              feature_index);

    quicksort(indices_range_first,
              right_first - 1,
              samples_range_first,
              samples_range_last,
              n_features,
              pivot_index_of_left_subrange,
              feature_index);
""")
SB = "search/buffer/StaticBuffer.hpp"
edit("buffer: hoisted closest", SB, "N01", """            if (distance_candidate < closest_distance()) {
                closest_index_    = index_candidate;
                closest_distance_ = distance_candidate;
            }
            // if the candidate's""", """            update_closest(index_candidate, distance_candidate);
            // if the candidate's""", """            // If distance_candidate is lesser than furthest_distance, it could as well be lesser than the closest one.
            if (distance_candidate < closest_distance()) {
                closest_index_    = index_candidate;
                closest_distance_ = distance_candidate;
            }""", """            update_closest(index_candidate, distance_candidate);""", """    void update_static_buffers(""", """    void update_closest(const IndexType& index_candidate, const DistanceType& distance_candidate) {
        if (distance_candidate < closest_distance_) {
            closest_distance_ = distance_candidate;
            closest_index_    = index_candidate;
        }
    }

    void update_static_buffers(""")
edit("buffer: loop max", SB, "N01", """            std::tie(buffer_index_of_furthest_index_, furthest_distance_) =
                common::math::statistics::get_max_index_value_pair(distances_.begin(), distances_.end());""", """            buffer_index_of_furthest_index_ = 0;
            for (std::size_t buffer_index = 1; buffer_index < distances_.size(); ++buffer_index) {
                if (distances_[buffer_index] > distances_[buffer_index_of_furthest_index_]) {
                    buffer_index_of_furthest_index_ = buffer_index;
                }
            }
            furthest_distance_ = distances_[buffer_index_of_furthest_index_];""")
edit("buffer: max_element", SB, "N01", """            std::tie(buffer_index_of_furthest_index_, furthest_distance_) =
                common::math::statistics::get_max_index_value_pair(distances_.begin(), distances_.end());""", """            const auto furthest_it          = std::max_element(distances_.begin(), distances_.end());
            buffer_index_of_furthest_index_ = std::distance(distances_.begin(), furthest_it);
            furthest_distance_              = *furthest_it;""")
edit("buffer: full first", SB, "N01", """        // update by default if it's being updated for the first time
        if (!size()) {""", """        if (size() && !remaining_capacity() && distance_candidate >= furthest_distance()) {
            return;
        }
        if (empty()) {""")
SL = "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
edit("slink: early continue", SL, "C04", """        // merge the disjoints sets based on the 2 samples and return the common representative of the newly formed set
        const auto common_representative = union_find.merge(sample_index_1, sample_index_2);
        // this condition checks if a merge happened based on the old representative values
        if (common_representative != representative_1 || common_representative != representative_2) {
            // create""", """        if (representative_1 == representative_2) {
            continue;
        }
        const auto common_representative = union_find.merge(sample_index_1, sample_index_2);
        {
            // create""")
edit("slink: node references", SL, "C04", """            // link the nodes to their new parent node
            nodes[representative_1]->parent_ = cluster_node;
            nodes[representative_2]->parent_ = cluster_node;

            // add them as children of their common parent node
            cluster_node->left_  = std::move(nodes[representative_1]);
            cluster_node->right_ = std::move(nodes[representative_2]);
""", """            auto left_node         = nodes[representative_1];
            auto right_node        = nodes[representative_2];
            left_node->parent_     = cluster_node;
            right_node->parent_    = cluster_node;
            cluster_node->left_    = left_node;
            cluster_node->right_   = right_node;
""")
edit("slink: index loop", SL, "C04", """    for (const auto& [sample_index_1, sample_index_2, samples_edge_weight] : sorted_mst_) {""", """    for (std::size_t edge_index = 0; edge_index < sorted_mst_.size(); ++edge_index) {
        const auto& edge                = sorted_mst_[edge_index];
        const auto  sample_index_1      = std::get<0>(edge);
        const auto  sample_index_2      = std::get<1>(edge);
        const auto  samples_edge_weight = std::get<2>(edge);""")
edit("slink: order of erase", SL, "C04", """            nodes.erase(representative_1);
            nodes.erase(representative_2);
            // place""", """            nodes.erase(representative_2);
            nodes.erase(representative_1);
            // place""")
edit("slink: merge helper", SL, "C04", """            // link the nodes to their new parent node
            nodes[representative_1]->parent_ = cluster_node;
            nodes[representative_2]->parent_ = cluster_node;

            // add them as children of their common parent node
            cluster_node->left_  = std::move(nodes[representative_1]);
            cluster_node->right_ = std::move(nodes[representative_2]);
""", """            const auto adopt = [&nodes, &cluster_node](const auto& representative, auto& slot) {
                nodes[representative]->parent_ = cluster_node;
                slot                           = std::move(nodes[representative]);
            };
            adopt(representative_1, cluster_node->left_);
            adopt(representative_2, cluster_node->right_);
""")
edit("slink: label ternary", SL, "C01", """    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
        // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
        // else set the cluster label as the one at the current level
        cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
                            ? 0
                            : single_linkage_cluster_node->representative_;
    }
    // continue to traverse the tree if the current node is not leaf
    // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
    if (!single_linkage_cluster_node->is_leaf()) {
        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->left_, flat_cluster);
        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->right_, flat_cluster);

    } else {
        // assign the cluster label to the sample index (which is its own node at level 0)
        flat_cluster[single_linkage_cluster_node->representative_] = cluster_label;
    }""", """    const auto& node = *single_linkage_cluster_node;
    if (!(node.level_ < options_.cut_level_)) {
        if (node.size() >= options_.min_cluster_size_) {
            cluster_label = node.representative_;
        } else {
            cluster_label = 0;
        }
    }
    if (node.is_leaf()) {
        flat_cluster[node.representative_] = cluster_label;
        return;
    }
    preorder_traversal_single_linkage_clustering(cluster_label, node.left_, flat_cluster);
    preorder_traversal_single_linkage_clustering(cluster_label, node.right_, flat_cluster);""")
CT = "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
edit("condense: split helper", CT, "C02", """            // make the new left condensed cluster node
            {
                // create a new left cluster node split
                condensed_cluster_node->left_ =
                    std::make_shared<CondensedClusterNodeType>(single_linkage_cluster_node->left_);
                // link the new created left branch node to the current node
                condensed_cluster_node->left_->parent_ = condensed_cluster_node;
                // continue to traverse the tree with the new condensed_cluster_node and the left single linkage node
                // that didn't fall out of the cluster
                preorder_traversal_build(condensed_cluster_node->left_, single_linkage_cluster_node->left_);
            }
            // make the new right condensed cluster node
            {
                // create a new right cluster node split
                condensed_cluster_node->right_ =
                    std::make_shared<CondensedClusterNodeType>(single_linkage_cluster_node->right_);
                // link the new created right branch node to the current node
                condensed_cluster_node->right_->parent_ = condensed_cluster_node;
                // continue to traverse the tree with the new condensed_cluster_node and the right single linkage node
                // that didn't fall out of the cluster
                preorder_traversal_build(condensed_cluster_node->right_, single_linkage_cluster_node->right_);
            }""", """            const auto split = [&](auto& branch, const auto& slink_child) {
                branch          = std::make_shared<CondensedClusterNodeType>(slink_child);
                branch->parent_ = condensed_cluster_node;
                preorder_traversal_build(branch, slink_child);
            };
            split(condensed_cluster_node->left_, single_linkage_cluster_node->left_);
            split(condensed_cluster_node->right_, single_linkage_cluster_node->right_);""")
edit("condense: leaf first", CT, "C02", """    if (!single_linkage_cluster_node->is_leaf()) {
        const bool is_left_child_split_candidate =""", """    if (single_linkage_cluster_node->is_leaf()) {
        condensed_cluster_node->is_selected() = true;
        return;
    }
    {
        const bool is_left_child_split_candidate =""", """    // if single_linkage_cluster_node is a leaf node,
    else {
        // theres no need to compute the excess of mass since falling in that branch means that either the parent
        // node already added the right excess of mass or the condensed cluster node is root. In the latter case,
        // there's no need to compute the excess of mass so we just flag the condensed cluster as selected
        condensed_cluster_node->is_selected() = true;
    }
}""", "}")
edit("condense: one-sided merged", CT, "C02", """        else if (is_left_child_split_candidate) {
            // update the condensed cluster node with the samples that fell out from the cluster at the current level
            condensed_cluster_node->add_excess_of_mass(single_linkage_cluster_node->right_, lambda_value);
            // continue to traverse the tree with the left single linkage node that didn't fall out of the cluster
            // in the same condensed cluster node
            preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node->left_);
        }
        // if only the right child is a split candidate, it persists in the current condensed cluster node and the left
        // child is simply discarded (it "falls out of the cluster")
        else if (is_right_child_split_candidate) {
            // update the condensed cluster node with the samples that fell out from the cluster at the current level
            condensed_cluster_node->add_excess_of_mass(single_linkage_cluster_node->left_, lambda_value);
            // continue to traverse the tree with the right single linkage node that didn't fall out of the cluster
            // in the same condensed cluster node
            preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node->right_);
        }""", """        else if (is_left_child_split_candidate || is_right_child_split_candidate) {
            const auto& kept = is_left_child_split_candidate ? single_linkage_cluster_node->left_
                                                             : single_linkage_cluster_node->right_;
            const auto& lost = is_left_child_split_candidate ? single_linkage_cluster_node->right_
                                                             : single_linkage_cluster_node->left_;
            condensed_cluster_node->add_excess_of_mass(lost, lambda_value);
            preorder_traversal_build(condensed_cluster_node, kept);
        }""")
edit("select: max", CT, "C03", """        if (children_stability > condensed_cluster_node->stability_) {
            return children_stability;

        } else {
            // If, on the other hand, the cluster’s stability is greater than the sum of its children then we declare
            // the cluster to be a selected cluster
            condensed_cluster_node->is_selected() = true;
            // and we return its stability
            return condensed_cluster_node->stability_;
        }""", """        const auto own_stability = condensed_cluster_node->stability_;
        if (own_stability >= children_stability) {
            condensed_cluster_node->is_selected() = true;
        }
        return std::max(own_stability, children_stability);""")
edit("flat: index loop", CT, "C03 L02", """    ClusterIndexType cluster_label = 1;
    for (const auto& condensed_cluster_node : return_shallowest_cluster_selection()) {
        // assign all descendant samples in the node hierarchy with the same cluster label
        // then increment the cluster label for the next non-overlapping cluster
        preorder_traversal_single_linkage_clustering(cluster_label++,
                                                     /**/ condensed_cluster_node->single_linkage_cluster_node_root_,
                                                     /**/ flat_cluster);
    }""", """    const auto selection = return_shallowest_cluster_selection();
    for (std::size_t cluster = 0; cluster < selection.size(); ++cluster) {
        preorder_traversal_single_linkage_clustering(
            static_cast<ClusterIndexType>(cluster + 1), selection[cluster]->single_linkage_cluster_node_root_, flat_cluster);
    }""")
edit("shallowest: push_back and return", CT, "C03", """    if (condensed_cluster_node->is_selected()) {
        selected_condensed_cluster_nodes.emplace_back(condensed_cluster_node);
    }
    // else we still need to recurse the tree until we end up finding the first selected node of the branch
    else {
        preorder""", """    if (condensed_cluster_node->is_selected()) {
        selected_condensed_cluster_nodes.push_back(condensed_cluster_node);
        return;
    }
    {
        preorder""")
CN = "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"
edit("mass: expanded", CN, "C02", """    stability_ += single_linkage_cluster_node->size() * (lambda_value - lambda_min_);""", """    const auto n_points = static_cast<ValueType>(single_linkage_cluster_node->size());
    stability_          = stability_ + n_points * lambda_value - n_points * lambda_min_;""")

# ---- dual-tree search, traversal, trees ----
IM = "search/buffer/IndicesToBuffersMap.hpp"
edit("pairs: adjusted bound early return", IM, "N04", """            return (closest_limit < common::infinity<DistanceType>() - node_diameter)
                       ? std::min(furthest_limit, closest_limit + node_diameter)
                       : common::infinity<DistanceType>();""", """            if (closest_limit >= common::infinity<DistanceType>() - node_diameter) {
                return common::infinity<DistanceType>();
            }
            const auto reach = node_diameter + closest_limit;
            return reach < furthest_limit ? reach : furthest_limit;""")
edit("pairs: limits by comparison", IM, "N04", "closest_limit = std::min(closest_limit, closest_limit_candidate);", """if (closest_limit_candidate < closest_limit) {
                closest_limit = closest_limit_candidate;
            }""", "furthest_limit = std::max(furthest_limit, furthest_limit_candidate);", """if (furthest_limit < furthest_limit_candidate) {
                furthest_limit = furthest_limit_candidate;
            }""")
edit("pairs: cost with early return", IM, "N04", """    return (query_node_furthest_bound(query_node) < min_distance) ? std::nullopt : std::make_optional(min_distance);""", """    if (query_node_furthest_bound(query_node) >= min_distance) {
        return min_distance;
    }
    return std::nullopt;""")
edit("pairs: update_cost through cost rule helper", IM, "N04", """    return (query_node_furthest_bound(query_node) < cost) ? std::nullopt : std::make_optional(cost);""", """    const auto limit = query_node_furthest_bound(query_node);
    std::optional<DistanceType> result;
    if (!(limit < cost)) {
        result = cost;
    }
    return result;""")
edit("pairs: bounds in one condition", IM, "N04", """        if (index_to_buffer_it == queries_to_buffers_map_.cend()) {
            query_node_to_bound_limits_it->second.furthest_limit = infinity;
        }
        // If there's remaining space in the buffers, then candidates might potentially be further than the
        // buffer's current furthest distance.
        else if (index_to_buffer_it->second.remaining_capacity()) {
            query_node_to_bound_limits_it->second.furthest_limit = infinity;

        } else {
            const auto query_buffer_furthest_distance = index_to_buffer_it->second.furthest_distance();
            query_node_to_bound_limits_it->second.try_update_limits(query_buffer_furthest_distance);
        }""", """        const bool wants_more =
            index_to_buffer_it == queries_to_buffers_map_.cend() || index_to_buffer_it->second.remaining_capacity() > 0;
        auto& limits = query_node_to_bound_limits_it->second;
        if (wants_more) {
            limits.furthest_limit = infinity;
            continue;
        }
        limits.try_update_closest_limit(index_to_buffer_it->second.furthest_distance());
        limits.try_update_furthest_limit(index_to_buffer_it->second.furthest_distance());""")
edit("pairs: scan with locals", IM, "N04", """        auto query_to_buffer_it = this->find_or_emplace_buffer(
            *query_index_it,
            query_samples_range_first_ + (*query_index_it) * query_n_features_,
            query_samples_range_first_ + (*query_index_it) * query_n_features_ + query_n_features_,
            std::forward<BufferArgs>(buffer_args)...);
""", """        const auto query_index    = *query_index_it;
        const auto query_features = query_samples_range_first_ + query_index * query_n_features_;

        auto query_to_buffer_it = this->find_or_emplace_buffer(
            query_index, query_features, query_features + query_n_features_, std::forward<BufferArgs>(buffer_args)...);
""")
edit("pairs: queue worst helper", IM, "N04", """    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
                                         ? common::infinity<DistanceType>()
                                         : std::get<2>(kth_closest_edge_priority_queue_.top()))) {""", """    const auto longest_kept = [this]() {
        return kth_closest_edge_priority_queue_.empty() ? common::infinity<DistanceType>()
                                                        : std::get<2>(kth_closest_edge_priority_queue_.top());
    };
    if (buffer.closest_distance() < longest_kept()) {""", """            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
                                                  ? common::infinity<DistanceType>()
                                                  : std::get<2>(kth_closest_edge_priority_queue_.top());

            if (candidate_distance < pq_furthest_distance) {""", """            if (candidate_distance < longest_kept()) {""")
CP_ = "search/ClosestPairOfSamples.hpp"
edit("pairs: exhaustive with continue", CP_, "N04", """            if (samples_distance > 0 && samples_distance < std::get<2>(shortest_edge)) {
                shortest_edge = datastruct::mst::make_edge(*index_it, *other_index_it, samples_distance);
            }""", """            if (samples_distance <= 0) {
                continue;
            }
            if (std::get<2>(shortest_edge) > samples_distance) {
                std::get<0>(shortest_edge) = *index_it;
                std::get<1>(shortest_edge) = *other_index_it;
                std::get<2>(shortest_edge) = samples_distance;
            }""")
TR = "search/TreeTraverser.hpp"
edit("dual: cost by if", TR, "N04", """        optional_cost = optional_cost ? queries_to_buffers_map.update_cost(query_node, reference_node, *optional_cost)
                                      : queries_to_buffers_map.cost(query_node, reference_node);
        // If the returned optional is std::nullopt, then the current nodes combination can be pruned.
        if (!optional_cost) {
            return;
        }
    }
    // Else, update the query buffers with the reference set while keeping track of the global shortest edge.
    queries_to_buffers_map.partial_search_for_each_query(query_node->indices_range_.first,
                                                         query_node->indices_range_.second,
                                                         reference_node->indices_range_.first,
                                                         reference_node->indices_range_.second,
                                                         std::forward<BufferArgs>(buffer_args)...);

    // The order of traversal doesn't matter for the query node.
    if (!query_node->is_leaf()) {
        for (const auto& child_node : {query_node->left_, query_node->right_}) {
            dual_tree_traversal(child_node,
                                reference_node,
                                queries_to_buffers_map,
                                std::nullopt,
                                false,
                                std::forward<BufferArgs>(buffer_args)...);
        }
    }
""", """        if (optional_cost.has_value()) {
            if (!queries_to_buffers_map.update_cost(query_node, reference_node, optional_cost.value()).has_value()) {
                return;
            }
        } else if (!queries_to_buffers_map.cost(query_node, reference_node).has_value()) {
            return;
        }
    }
    const auto& queries    = query_node->indices_range_;
    const auto& references = reference_node->indices_range_;
    queries_to_buffers_map.partial_search_for_each_query(
        queries.first, queries.second, references.first, references.second, std::forward<BufferArgs>(buffer_args)...);

    if (!query_node->is_leaf()) {
        dual_tree_traversal(query_node->left_,
                            reference_node,
                            queries_to_buffers_map,
                            std::nullopt,
                            false,
                            std::forward<BufferArgs>(buffer_args)...);
        dual_tree_traversal(query_node->right_,
                            reference_node,
                            queries_to_buffers_map,
                            std::nullopt,
                            false,
                            std::forward<BufferArgs>(buffer_args)...);
    }
""")
edit("traverse: descend by loop", TR, "N03", """    buffer.partial_search(reference_node->indices_range_.first,
                          reference_node->indices_range_.second,
                          reference_indexer_.begin(),
                          reference_indexer_.end(),
                          reference_indexer_.n_features());
    // continue to recurse down the tree if the current node is not leaf until we reach a terminal node
    if (!reference_node->is_leaf()) {
        reference_node =
            recursive_search_to_leaf_node(reference_node->select_closest_child(reference_indexer_.begin(),
                                                                               reference_indexer_.end(),
                                                                               reference_indexer_.n_features(),
                                                                               buffer.centroid_begin(),
                                                                               buffer.centroid_end()),
                                          buffer);
    }
    return reference_node;""", """    const auto& range = reference_node->indices_range_;
    buffer.partial_search(range.first,
                          range.second,
                          reference_indexer_.begin(),
                          reference_indexer_.end(),
                          reference_indexer_.n_features());
    if (reference_node->is_leaf()) {
        return reference_node;
    }
    const auto next = reference_node->select_closest_child(reference_indexer_.begin(),
                                                           reference_indexer_.end(),
                                                           reference_indexer_.n_features(),
                                                           buffer.centroid_begin(),
                                                           buffer.centroid_end());
    return recursive_search_to_leaf_node(next, buffer);""")
edit("traverse: sibling with local", TR, "N03", """    if (auto sibling_node = reference_node->select_sibling_node(/**/ reference_indexer_.begin(),
                                                                /**/ reference_indexer_.end(),
                                                                /**/ reference_indexer_.n_features(),
                                                                /**/ buffer)) {
        // search for other candidates from the sibling node
        single_tree_traversal(sibling_node, buffer);
    }""", """    const auto sibling_node = reference_node->select_sibling_node(
        reference_indexer_.begin(), reference_indexer_.end(), reference_indexer_.n_features(), buffer);
    if (sibling_node != nullptr) {
        single_tree_traversal(sibling_node, buffer);
    }""")
edit("traverse: batch loop", TR, "N03", """    std::for_each(
        buffer_batch.begin(), buffer_batch.end(), [this](auto& buffer) { buffer = (*this)(std::move(buffer)); });
""", """    for (auto& buffer : buffer_batch) {
        buffer = (*this)(std::move(buffer));
    }
""")
SB = "search/buffer/StaticBuffer.hpp"
edit("buffer: push_back and locals", SB, "N01 N02", """            // replace the previous greatest distance now that the vectors overflow the max capacity
            indices_[buffer_index_of_furthest_index_]   = index_candidate;
            distances_[buffer_index_of_furthest_index_] = distance_candidate;
            // find the new furthest neighbor and update the cache accordingly
            std::tie(buffer_index_of_furthest_index_, furthest_distance_) =
                common::math::statistics::get_max_index_value_pair(distances_.begin(), distances_.end());""", """            const auto at  = buffer_index_of_furthest_index_;
            distances_[at] = distance_candidate;
            indices_[at]   = index_candidate;
            const auto furthest             = std::max_element(distances_.begin(), distances_.end());
            buffer_index_of_furthest_index_ = std::distance(distances_.begin(), furthest);
            furthest_distance_              = *furthest;""")
edit("memory: early return", "search/buffer/WithMemory.hpp", "N02", """        const bool is_candidate_valid =
            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();

        if (is_candidate_valid) {
            this->update_static_buffers(index_candidate, distance_candidate);
        }""", """        if (visited_indices_const_reference_.count(index_candidate) != 0) {
            return;
        }
        this->update_static_buffers(index_candidate, distance_candidate);""")
KT = "datastruct/tree/kdtree/KDTree.hpp"
edit("kdtree: child bounds copied", KT, "T01 T02", """            bound.segment_at(feature_cut_index).update_upper_bound(feature_cut_value);

            kdnode->left_ = build(/**/ left_indices_range.first,
                                  /**/ left_indices_range.second,
                                  /**/ feature_cut_index,
                                  /**/ depth + 1,
                                  /**/ bound);
            // provide a parent pointer to the child node for reversed traversal of the kdtree
            kdnode->left_->parent_ = kdnode;

            // reset the right bound of the bounding box to the current kdnode right bound
            bound.segment_at(feature_cut_index)
                .update_upper_bound(kdnode->bound_.segment_at(feature_cut_index).upper_bound());""", """            const auto whole_upper_bound = bound.segment_at(feature_cut_index).upper_bound();
            bound.segment_at(feature_cut_index).update_upper_bound(feature_cut_value);

            auto left_child =
                build(left_indices_range.first, left_indices_range.second, feature_cut_index, depth + 1, bound);
            left_child->parent_ = kdnode;
            kdnode->left_       = left_child;

            bound.segment_at(feature_cut_index).update_upper_bound(whole_upper_bound);""")
ST = "common/math/statistics/Statistics.hpp"
edit("statistics: max by loop", ST, "S01 N01", """    const auto        max_element = std::max_element(first, last);
    const std::size_t max_index   = std::distance(first, max_element);
    const DataType    max_value   = *max_element;

    return {max_index, max_value};""", """    std::size_t max_index = 0;
    DataType    max_value = *first;

    for (auto it = first; it != last; ++it) {
        if (*it > max_value) {
            max_value = *it;
            max_index = std::distance(first, it);
        }
    }
    return std::make_pair(max_index, max_value);""")
edit("silhouette: cohesion local sum", "common/math/heuristics/SilhouetteMethod.hpp", "H01", """                samples_cohesion_scores[sample_index] +=
                    auto_distance(samples_range_first + sample_index * n_features,
                                  samples_range_first + sample_index * n_features + n_features,
                                  samples_range_first + other_sample_index * n_features,
                                  samples_range_first + other_sample_index * n_features + n_features);
            }
        }
        // number of samples in the current centroid
        const auto cluster_size = cluster_sizes[centroid_index];
        // normalise the sum of the distances from the current sample to all the other samples in the same centroid
        // divide by one if the cluster contains 0 or 1 sample
        if (cluster_size > 1) {
            samples_cohesion_scores[sample_index] /= static_cast<ElementType>(cluster_size - 1);
        }""", """                distances_sum += auto_distance(samples_range_first + sample_index * n_features,
                                               samples_range_first + sample_index * n_features + n_features,
                                               samples_range_first + other_sample_index * n_features,
                                               samples_range_first + other_sample_index * n_features + n_features);
            }
        }
        const auto cluster_size = cluster_sizes[centroid_index];
        samples_cohesion_scores[sample_index] =
            cluster_size > 1 ? distances_sum / static_cast<ElementType>(cluster_size - 1) : distances_sum;""", """        // iterate over all the other data samples by skipping when i == j or C_I != C_J
""", """        ElementType distances_sum = 0;
""")
edit("matrix: row offset helper", "datastruct/matrix/PairwiseDistanceMatrix.hpp", "P01", """    // swap the indices if an upper triangle (diameter excluded) quiery is made
    if (row_index < column_index) {
        std::swap(row_index, column_index);
    }
    const std::size_t flat_index = row_index * (row_index - 1) / 2;

    return data_[flat_index + column_index];""", """    const std::size_t low  = std::min(row_index, column_index);
    const std::size_t high = std::max(row_index, column_index);

    return data_[(high * (high - 1)) / 2 + low];""")
edit("kmeans fit: while loop", "kmeans/KMeans.hpp", "K05", """                if (patience_iteration == options_.patience_) {
                    break;
                }
                ++patience_iteration;

            } else {
                patience_iteration = 0;
            }
            // save the results""", """                if (patience_iteration++ == options_.patience_) {
                    break;
                }
            } else {
                patience_iteration = 0;
            }
            // save the results""")
