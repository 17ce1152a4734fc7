#include "prelude.hpp"
namespace rn = ffcl::common::math::random;
void w_sampling2(SIt a, SIt b, IIt i, IIt j) { rn::select_n_random_samples_from_indices(i, j, a, b, 2, 3); }
