#include "prelude.hpp"
namespace rn = ffcl::common::math::random;
template class ffcl::common::math::random::VosesAliasMethod<D>;
void w_sampling(SIt a, SIt b, IIt i, IIt j) {
    rn::select_n_elements(i, j, 3); rn::make_n_elements_from_interval<std::size_t>(3, std::make_pair(std::size_t(0), std::size_t(9)));
    rn::select_random_sample(a, b, 2); rn::select_n_random_samples(a, b, 2, 3); rn::init_spatial_uniform(a, b, 2, 3); rn::init_uniform(a, b, 2, 3);
}
void w_distributions() {
    rn::uniform_distribution<D> u{0, 1}; u(); u(1); rn::uniform_distribution<std::size_t> ui{0, 1}; ui(); ui(1);
    rn::normal_distribution<int> n{3, 0.5}; n(); n(1);
}
