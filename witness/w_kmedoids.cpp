#include "prelude.hpp"
template class ffcl::KMedoids<D, true>;
template class ffcl::KMedoids<D, false>;
template class ffcl::FasterPAM<SIt>;
template class ffcl::FasterMSC<SIt>;
template <class K> void w_km(K& k, SIt a, SIt b, const ffcl::datastruct::PairwiseDistanceMatrix<SIt>& m) {
    k.template fit<ffcl::FasterPAM>(a, b, 2); k.template fit<ffcl::FasterMSC>(a, b, 2); k.fit(a, b, 2); k.template fit<ffcl::FasterPAM>(m); k.template fit<ffcl::FasterMSC>(m); k.fit(m); k.forward(a, b, 2); k.forward(m); k.predict(a, b, 2); k.predict(m);
}
void w_kmedoids(ffcl::KMedoids<D, true>& k, ffcl::KMedoids<D, false>& l, SIt a, SIt b, const ffcl::datastruct::PairwiseDistanceMatrix<SIt>& m) { w_km(k, a, b, m); w_km(l, a, b, m); }
