#include "prelude.hpp"
template class ffcl::KMeans<D>;
template class ffcl::Lloyd<SIt>;
template class ffcl::Hamerly<SIt>;
void w_kmeans(ffcl::KMeans<D>& k, SIt a, SIt b, const std::vector<D>& c) {
    auto init = [](const SIt& x, const SIt& y, std::size_t f, std::size_t n) { return std::vector<D>(); };
    k.fit<ffcl::Lloyd>(a, b, 2, init); k.fit<ffcl::Lloyd>(a, b, 2); k.fit<ffcl::Hamerly>(a, b, 2); k.fit(a, b, 2, init); k.fit(a, b, 2); k.forward(a, b, 2); k.predict(a, b, 2);
}
