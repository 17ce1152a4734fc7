#include "prelude.hpp"
namespace ds = ffcl::datastruct;
using I    = std::size_t;
using SL   = ds::SingleLinkageClusterTree<I, D>;
using SN   = SL::SingleLinkageClusterNodeType;
using SP   = SL::SingleLinkageClusterNodePtr;
using CT   = ds::CondensedClusterTree<I, D>;
using CN   = CT::CondensedClusterNodeType;
using CP   = CT::CondensedClusterNodePtr;
using Flat = std::vector<I>;
using Sel  = std::vector<CP>;
template <class... T> CP ufp(T...);
void mark_all(const SL& t, I label, const SP& n, Flat& f) { ghost(f) += uf(20, label, n); }
void mark_all_condensed(const CT& t, const I& label, const SP& n, Flat& f) { ghost(f) += uf(21, label, n); }
void condense(CT& t, CP c, const SP& n) { ghost(t) += uf(22, c, n); }
D    stability_of(CT& t, CP c) { ghost(t) += uf(28, c); return uf(23, c); }
void select(const CT& t, const CP& c, Sel& v) { ghost(v) += uf(24, c); }
Sel  selection(const CT& t) {
    Sel v(I(uf(25)));
    for (I j = 0; j < v.size(); ++j) v[j] = ufp(26, j);
    return v;
}
CP   condensed(CT& t, const SP& n) { return ufp(27, n); }

//@ sl_node
bool law_C01_node(I r, D l, I k) {
    const SN a(r), b(r, l, k);
    return a.representative_ == r && a.level_ == 0 && a.size() == 1 && a.is_leaf() && !a.has_parent() && b.representative_ == r && b.level_ == l && b.size() == k && b.is_leaf() && !b.has_parent();
}
//@ sl_node_links
bool law_C01_node_links(const SN& n) { return n.has_parent() == (n.parent_ != nullptr) && n.is_leaf() == (n.left_ == nullptr && n.right_ == nullptr) && n.size() == n.cluster_size_; }
//! C01_label call:ffcl::datastruct::SingleLinkageClusterTree::preorder_traversal_single_linkage_clustering -> mark_all
//@ sl_label
bool law_C01_label(const SL& t, I label, const SP& n, Flat& f, I i) {
    if (!n || !(i < f.size()) || (n->left_ == nullptr) != (n->right_ == nullptr)) return true;
    ghost(f) = 0;
    const auto old = f[i];
    const I l = n->level_ >= t.options_.cut_level_ ? (n->size() < t.options_.min_cluster_size_ ? 0 : n->representative_) : label;
    t.preorder_traversal_single_linkage_clustering(label, n, f);
    if (n->is_leaf()) return ghost(f) == 0 && f[i] == (i == n->representative_ ? l : old);
    return ghost(f) == uf(20, l, n->left_) + uf(20, l, n->right_) && f[i] == old;
}
//! C01_extract ffcl::datastruct::SingleLinkageClusterTree::preorder_traversal_single_linkage_clustering -> mark_all
//@ sl_extract
bool law_C01_extract(const SL& t) {
    const auto f = t.extract_flat_clusters();
    return f.size() == t.root_->size() && ghost(f) == uf(20, t.root_->representative_, t.root_);
}
//! C01_predict ffcl::datastruct::SingleLinkageClusterTree::preorder_traversal_single_linkage_clustering -> mark_all
//@ sl_predict
bool law_C01_predict(const SL& t) {
    const auto f = t.predict();
    return f.size() == t.root_->size() && ghost(f) == uf(20, t.root_->representative_, t.root_) && t.root() == t.root_;
}
//@ sl_options
bool law_C01_options(SL::Options& o, D c, I m) {
    const SL::Options d;
    const auto m0 = o.min_cluster_size_;
    o.cut_level(c);
    if (!(o.cut_level_ == c && o.min_cluster_size_ == m0)) return false;
    o.min_cluster_size(m);
    const SL::Options q(o); SL::Options w; w = o;
    return o.cut_level_ == c && o.min_cluster_size_ == m && q.cut_level_ == c && q.min_cluster_size_ == m && w.cut_level_ == c && w.min_cluster_size_ == m && d.min_cluster_size_ == 1 && d.cut_level_ == std::numeric_limits<D>::infinity();
}
//@ sl_set_options
bool law_C01_set_options(SL& t, const SL::Options& o) {
    const auto r = t.root_;
    t.set_options(o);
    return t.options_.cut_level_ == o.cut_level_ && t.options_.min_cluster_size_ == o.min_cluster_size_ && t.root_ == r;
}

//@ c_node
bool law_C02_node(const SP& n) {
    if (!n) return true;
    const CN c(n);
    return c.single_linkage_cluster_node_root_ == n && c.lambda_min_ == (n->parent_ ? ffcl::common::division(1, n->parent_->level_) : 0) && c.stability_ == 0 && !c.is_selected() && c.is_leaf() && c.size() == n->size() && c.parent_ == nullptr;
}
//@ c_mass
bool law_C02_mass(CN& c, const SP& n, D l) {
    const D s = c.stability_, m = c.lambda_min_;
    c.add_excess_of_mass(n, l);
    return c.stability_ == s + n->size() * (l - m) && c.lambda_min_ == m;
}
//! C02_condense call:ffcl::datastruct::CondensedClusterTree::preorder_traversal_build -> condense
//@ condense
bool law_C02_condense(CT& t, const CP& c, const SP& n) {
    if (!n || !c || (n->left_ == nullptr) != (n->right_ == nullptr) || c->left_ || c->right_) return true;
    ghost(t) = 0;
    const D s = c->stability_, m = c->lambda_min_;
    const bool sel = c->is_selected_;
    t.preorder_traversal_build(c, n);
    if (n->is_leaf()) return c->is_selected_ && c->stability_ == s && c->is_leaf() && ghost(t) == 0;
    const bool l = n->left_->size() >= t.options_.min_cluster_size_, r = n->right_->size() >= t.options_.min_cluster_size_;
    const D lam = ffcl::common::division(1, n->level_);
    if (l && r) return c->is_selected_ == sel && c->stability_ == s + n->size() * (lam - m) && c->left_->single_linkage_cluster_node_root_ == n->left_ && c->right_->single_linkage_cluster_node_root_ == n->right_ && c->left_->parent_ == c && c->right_->parent_ == c && ghost(t) == uf(22, c->left_, n->left_) + uf(22, c->right_, n->right_);
    if (l) return c->is_selected_ == sel && c->is_leaf() && c->stability_ == s + n->right_->size() * (lam - m) && ghost(t) == uf(22, c, n->left_);
    if (r) return c->is_selected_ == sel && c->is_leaf() && c->stability_ == s + n->left_->size() * (lam - m) && ghost(t) == uf(22, c, n->right_);
    return c->is_selected_ && c->is_leaf() && c->stability_ == s + n->size() * (lam - m) && ghost(t) == 0;
}
//! C02_build ffcl::datastruct::CondensedClusterTree::preorder_traversal_build -> condense
//@ c_build
bool law_C02_build(CT& t, const SP& n) {
    if (!n) return true;
    ghost(t) = 0;
    const auto c = t.build(n);
    return c->single_linkage_cluster_node_root_ == n && ghost(t) == uf(22, c, n);
}
//! C03_stability call:ffcl::datastruct::CondensedClusterTree::select_subtree -> stability_of
//@ stability
bool law_C03_stability(CT& t, const CP& c) {
    if (!c || (c->left_ == nullptr) != (c->right_ == nullptr)) return true;
    const bool sel = c->is_selected_;
    const D s = c->stability_;
    ghost(t) = 0;
    const D r = t.select_subtree(c);
    if (c->is_leaf()) return r == s && c->is_selected_ == sel && ghost(t) == 0;
    const D k = uf(23, c->left_) + uf(23, c->right_);
    return ghost(t) == uf(28, c->left_) + uf(28, c->right_) && r == (k > s ? k : s) && c->is_selected_ == (k > s ? sel : true) && c->stability_ == s;
}
//! C03_shallowest call:ffcl::datastruct::CondensedClusterTree::preorder_traversal_fill_shallowest_selected_nodes -> select
//@ shallowest
bool law_C03_shallowest(const CT& t, const CP& c, Sel& v) {
    if (!c) return true;
    const auto n = v.size();
    ghost(v) = 0;
    t.preorder_traversal_fill_shallowest_selected_nodes(c, v);
    if (c->is_selected_) return v.size() == n + 1 && v[n] == c && ghost(v) == 0;
    return v.size() == n && ghost(v) == uf(24, c->left_) + uf(24, c->right_);
}
//! C03_selection ffcl::datastruct::CondensedClusterTree::preorder_traversal_fill_shallowest_selected_nodes -> select
//@ selection
bool law_C03_selection(const CT& t) {
    const auto v = t.return_shallowest_cluster_selection();
    return v.size() == 0 && ghost(v) == uf(24, t.root_);
}
//! C03_label call:ffcl::datastruct::CondensedClusterTree::preorder_traversal_single_linkage_clustering -> mark_all_condensed
//@ c_label
bool law_C03_label(const CT& t, I label, const SP& n, Flat& f, I i) {
    if (!n || !(i < f.size()) || (n->left_ == nullptr) != (n->right_ == nullptr)) return true;
    ghost(f) = 0;
    const auto old = f[i];
    t.preorder_traversal_single_linkage_clustering(label, n, f);
    if (n->is_leaf()) return ghost(f) == 0 && f[i] == (i == n->representative_ ? label : old);
    return ghost(f) == uf(21, label, n->left_) + uf(21, label, n->right_) && f[i] == old;
}
//! C03_extract ffcl::datastruct::CondensedClusterTree::return_shallowest_cluster_selection -> selection
//! C03_extract ffcl::datastruct::CondensedClusterTree::preorder_traversal_single_linkage_clustering -> mark_all_condensed
//@ c_extract
bool law_C03_extract(const CT& t) {
    const auto f = t.extract_flat_clusters();
    D g = 0;
    const I n = uf(25);
    for (I j = 0; j < n; ++j) g += uf(21, j + 1, ufp(26, j)->single_linkage_cluster_node_root_);
    return f.size() == t.root_->size() && ghost(f) == g;
}
//! C03_noise ffcl::datastruct::CondensedClusterTree::return_shallowest_cluster_selection -> selection
//! C03_noise ffcl::datastruct::CondensedClusterTree::preorder_traversal_single_linkage_clustering -> mark_all_condensed
//@ c_noise
bool law_C03_noise(const CT& t, I i) {
    if (!(i < t.root_->size())) return true;
    const auto f = t.extract_flat_clusters();
    return f[i] == 0;
}
//! C03_tree ffcl::datastruct::CondensedClusterTree::build -> condensed
//! C03_tree ffcl::datastruct::CondensedClusterTree::select_subtree -> stability_of
//@ c_tree
bool law_C03_tree(const SP& n, const CT::Options& o) {
    if (!n) return true;
    const auto r = ufp(27, n);
    const bool sel = r->is_selected_, leaf = r->is_leaf();
    const CT t(n, o);
    return t.root_ == r && t.options_.min_cluster_size_ == o.min_cluster_size_ && t.options_.allow_single_cluster_ == o.allow_single_cluster_ && t.options_.return_leaf_nodes_ == o.return_leaf_nodes_ && ghost(t) == (o.return_leaf_nodes_ ? 0 : uf(28, r)) &&
           r->is_selected_ == (o.return_leaf_nodes_ || o.allow_single_cluster_ || leaf ? sel : false);
}
//@ c_options
bool law_C03_options(CT::Options& o, I m, bool s, bool l) {
    const CT::Options d;
    const auto m0 = o.min_cluster_size_; const bool s0 = o.allow_single_cluster_, l0 = o.return_leaf_nodes_;
    CT::Options a(o), b(o), c(o);
    a.min_cluster_size(m); b.allow_single_cluster(s); c.return_leaf_nodes(l);
    CT::Options w; w = o;
    return a.min_cluster_size_ == m && a.allow_single_cluster_ == s0 && a.return_leaf_nodes_ == l0 && b.min_cluster_size_ == m0 && b.allow_single_cluster_ == s && b.return_leaf_nodes_ == l0 && c.min_cluster_size_ == m0 && c.allow_single_cluster_ == s0 && c.return_leaf_nodes_ == l &&
           w.min_cluster_size_ == m0 && w.allow_single_cluster_ == s0 && w.return_leaf_nodes_ == l0 && d.min_cluster_size_ == 1 && !d.allow_single_cluster_ && !d.return_leaf_nodes_;
}
