#include "prelude.hpp"
namespace ds = ffcl::datastruct;
using Tree = ds::KDTree<IIt, SIt>;
template class ffcl::DBSCAN<Tree>;
template class ffcl::HDBSCAN<Tree>;
template class ffcl::BoruvkasAlgorithm<Tree>;
void w_density(ffcl::DBSCAN<Tree>& d, ffcl::HDBSCAN<Tree>& h, ffcl::BoruvkasAlgorithm<Tree>& b, Tree& t) {
    h.predict(t); h.predict(std::move(t)); b.make_tree(t); b.make_tree(std::move(t)); d.predict(std::move(t));
    ds::mst::make_static_core_distances(ffcl::search::Searcher(t), std::size_t(3));
}
void w_trees(ds::mst::EdgesList<std::size_t, D>& e) {
    ds::SingleLinkageClusterTree<std::size_t, D> s(e); s.root(); s.predict(); s.extract_flat_clusters(); s.print(); s.serialize("x");
    ds::CondensedClusterTree<std::size_t, D> c(s.root()); c.predict();
}
