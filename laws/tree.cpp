#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace al = ffcl::common::algorithms;
namespace ka = ffcl::datastruct::kdtree::algorithms;
namespace po = ffcl::datastruct::kdtree::policy;
namespace bf = ffcl::search::buffer;
using UF   = ds::UnionFind<std::size_t>;
using Tree = ds::KDTree<IIt, SIt>;
using Node = Tree::NodeType;
using Ptr  = Tree::NodePtr;
using Bound = Tree::BoundType;
using Seg  = ds::bounds::segment::LowerBoundAndUpperBound<D>;
using Pair = std::pair<IIt, IIt>;
//@ uf_fresh
bool law_U01_fresh(std::size_t n, std::size_t i) {
    if (!(i < n)) return true;
    const UF f(n);
    return f.find(i) == i && f.parents_[i] == i && f.ranks_[i] == 0 && f.n_samples_ == n;
}
//@ uf_labels
bool law_U01_labels(std::size_t n, const std::vector<std::size_t>& v, std::size_t i) {
    if (!(i < n)) return true;
    auto p = std::make_unique<std::size_t[]>(n);
    for (std::size_t j = 0; j < n; ++j) p[j] = v[j];
    const UF f(n, std::move(p));
    return f.parents_[i] == v[i] && f.ranks_[i] == 0 && f.n_samples_ == n;
}
//@ uf_root
bool law_U01_find_root(const UF& f, std::size_t i) { const auto r = f.find(i); return f.parents_[r] == r; }
//@ uf_self
bool law_U01_find_representative(const UF& f, std::size_t i) { if (f.parents_[i] != i) return true; return f.find(i) == i && f.parents_[i] == i; }
//@ uf_merge
bool law_U01_merge(UF& f, std::size_t i, std::size_t j, std::size_t k) {
    const auto a = f.find(i), b = f.find(j);
    if (f.parents_[a] != a || f.parents_[b] != b) return true;
    const auto old = f.parents_[k];
    const auto r = f.merge(i, j);
    const auto lost = r == a ? b : a;
    return (r == a || r == b) && f.parents_[r] == r && f.parents_[a] == r && f.parents_[b] == r && f.parents_[k] == (k == lost ? r : old);
}
//@ uf_rank
bool law_U01_merge_ranks(UF& f, std::size_t i, std::size_t j, std::size_t k) {
    const auto a = f.find(i), b = f.find(j);
    if (f.parents_[a] != a || f.parents_[b] != b) return true;
    const auto ra = f.ranks_[a], rb = f.ranks_[b], rk = f.ranks_[k];
    const auto r = f.merge(i, j);
    if (a == b) return f.ranks_[k] == rk;
    return (ra < rb ? r == b : rb < ra ? r == a : true) && f.ranks_[k] == (k == r && ra == rb ? rk + 1 : rk);
}
// a forest given by an arbitrary function: every element below some smaller one, or a root
static std::size_t up(std::size_t i) { const D x = uf(40, i); return std::size_t(x < 0 ? -x : x) % (i + 1); }
static std::size_t root_of(const std::size_t* p, std::size_t i) { while (p[i] != i) i = p[i]; return i; }
static std::size_t many() { const D x = uf(41); return 2 + std::size_t(x < 0 ? -x : x) % 5; }
static std::unique_ptr<std::size_t[]> forest(std::size_t n) {
    auto p = std::make_unique<std::size_t[]>(n);
    for (std::size_t j = 0; j < n; ++j) p[j] = up(j);
    return p;
}
//@ uf_find_sets
bool law_U01_find_keeps_sets(std::size_t i, std::size_t k) {
    const auto n = many(); i %= n; k %= n;
    const auto q = forest(n);
    const UF f(n, forest(n));
    const auto r = f.find(i);
    return r == root_of(q.get(), i) && root_of(f.parents_.get(), k) == root_of(q.get(), k);
}
//@ uf_merge_sets
bool law_U01_sets_merged(std::size_t i, std::size_t j, std::size_t k) {
    const auto n = many(); i %= n; j %= n; k %= n;
    const auto q = forest(n);
    UF f(n, forest(n));
    const auto a = root_of(q.get(), i), b = root_of(q.get(), j), c = root_of(q.get(), k);
    const auto r = f.merge(i, j);
    return root_of(f.parents_.get(), k) == (c == a || c == b ? r : c);
}
//@ uf_merge_same
bool law_U01_same_set(std::size_t i, std::size_t j, std::size_t k) {
    const auto n = many(); i %= n; j %= n; k %= n;
    const auto q = forest(n);
    const auto a = root_of(q.get(), i);
    if (root_of(q.get(), j) != a) return true;
    UF f(n, forest(n));
    const auto r = f.merge(i, j);
    return r == a && f.ranks_[k] == 0 && f.parents_[a] == a;
}
//@ med3
bool law_Q01_median_of_three(IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, std::size_t f) {
    const auto r = al::median_index_of_three(x, x + n, s, s + m * d, d, f);
    if (n < 3) return r == 0;
    const auto v = [&](auto i) { return s[x[i] * d + f]; };
    const auto a = v(0), b = v((n - 1) / 2), c = v(n - 1), e = v(r);
    return (r == 0 || r == (n - 1) / 2 || r == n - 1) && (a <= b ? (b <= c ? e == b : a <= c ? e == c : e == a) : (a <= c ? e == a : b <= c ? e == c : e == b));
}

//@ longest
bool law_T02_longest_axis(const Bound& b) {
    const auto r = ka::select_longest_axis(b);
    const auto len = [&](auto i) { const D x = b.segment_at(i).upper_bound() - b.segment_at(i).lower_bound(); return x < 0 ? -x : x; };
    D m = 0; std::size_t w = 0;
    for (std::size_t i = 0; i < b.n_features(); ++i) if (len(i) > m) { m = len(i); w = i; }
    return b.n_features() == 0 || r == w;
}
//@ longest_mask
bool law_T02_longest_axis_masked(const Bound& b, const std::vector<std::size_t>& k) {
    const auto r = ka::select_longest_axis(b, k);
    const auto len = [&](auto i) { const D x = b.segment_at(i).upper_bound() - b.segment_at(i).lower_bound(); return x < 0 ? -x : x; };
    D m = 0; std::size_t w = 0;
    for (std::size_t j = 0; j < k.size(); ++j) if (len(k[j]) > m) { m = len(k[j]); w = k[j]; }
    return r == w;
}
//@ cycle
bool law_T02_cycle_axis(const std::vector<std::size_t>& k, IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, std::size_t depth, const Bound& b) {
    po::CycleThroughAxesBuild<IIt, SIt, Bound> p, q;
    q.feature_mask(k);
    return p(x, x + n, s, s + m * d, d, depth, b) == depth % d && q(x, x + n, s, s + m * d, d, depth, b) == (k.size() == 0 ? depth % d : k[depth % k.size()]);
}
//@ spread
bool law_T02_spread_axis(const std::vector<std::size_t>& k, IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, std::size_t depth, const Bound& b) {
    po::MaximumSpreadBuild<IIt, SIt, Bound> p, q;
    q.feature_mask(k);
    return p(x, x + n, s, s + m * d, d, depth, b) == ka::select_longest_axis(b) && q(x, x + n, s, s + m * d, d, depth, b) == (k.size() == 0 ? ka::select_longest_axis(b) : ka::select_longest_axis(b, k));
}
//@ node
bool law_T02_node(const Pair& r, std::ptrdiff_t c, const Bound& b, std::size_t i) {
    const Node n(r, c, b), m(r, b);
    return n.begin() == r.first && n.end() == r.second && n.cut_axis_feature_index_ == c && m.begin() == r.first && m.end() == r.second && m.cut_axis_feature_index_ == -1 && n.is_leaf() && !n.has_children() && !n.has_parent() &&
           n.n_samples() == std::size_t(r.second - r.first) && n.is_empty() == (r.first == r.second) && n.bound_.segment_at(i).lower_bound() == b.segment_at(i).lower_bound() && m.bound_.segment_at(i).upper_bound() == b.segment_at(i).upper_bound() && n.diameter() == b.diameter();
}
//@ closest_child
bool law_T02_closest_child(const Node& n, SIt s, std::size_t m, std::size_t d, SIt q) {
    const D p = s[n.begin()[0] * d + n.cut_axis_feature_index_];
    return n.select_closest_child(s, s + m * d, d, q, q + d) == (q[n.cut_axis_feature_index_] < p ? n.left_ : n.right_);
}
//@ sibling
bool law_T02_sibling(const Pair& pr, std::ptrdiff_t c, const Pair& lr, const Pair& rr, const Bound& b, SIt s, std::size_t m, std::size_t d, const bf::Unsorted<SIt>& q) {
    auto p = std::make_shared<Node>(pr, c, b), l = std::make_shared<Node>(lr, b), r = std::make_shared<Node>(rr, b);
    p->left_ = l; p->right_ = r; l->parent_ = p; r->parent_ = p;
    const D x = s[p->begin()[0] * d + c] - q.centroid_begin()[c], gap = x < 0 ? -x : x;
    const bool room = q.remaining_capacity() != 0;
    const auto a = l->select_sibling_node(s, s + m * d, d, q), e = r->select_sibling_node(s, s + m * d, d, q);
    if (room || gap < q.furthest_distance(c)) return a == r && e == l;
    return (a == nullptr || a == r) && (e == nullptr || e == l) && (gap <= q.furthest_distance(c) ? a == r : true);
}
//@ accessors
bool law_T02_accessors(const Tree& t, std::size_t i) {
    return t[i] == t.begin() + i * t.n_features() && t.features_range_first(i) == t[i] && t.features_range_last(i) == t[i] + t.n_features() && t.begin() == t.samples_range_first_ && t.end() == t.samples_range_last_ &&
           t.cbegin() == t.begin() && t.cend() == t.end() && t.n_features() == t.n_features_ && t.root() == t.root_;
}
//@ n_samples
bool law_T02_n_samples(IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, const Tree& t) { if (d == 0 || t.n_features_ != d || t.samples_range_first_ != s || t.samples_range_last_ != s + m * d) return true; return t.n_samples() == m; }
//@ split
bool law_T01_split(IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, std::size_t f) {
    if (n == 0) return true;
    const auto [c, l, p, r] = ka::quickselect_median(x, x + n, s, s + m * d, d, f);
    return l.first == x && l.second == x + c && p.first == x + c && p.second == x + c + 1 && r.first == x + c + 1 && r.second == x + n;
}

//@ build_leaf
bool law_T01_build_leaf(Tree& t, IIt x, std::size_t n, std::size_t f, std::size_t depth, Bound& b, std::size_t i) {
    const auto p = t.build(x, x + n, f, depth, b);
    const bool leaf = !(depth < t.options_.max_depth_ && n > t.options_.bucket_size_);
    return p->is_leaf() == leaf && p->has_children() == !leaf && (!leaf || (p->begin() == x && p->end() == x + n && p->cut_axis_feature_index_ == -1));
}
//@ build_ranges
bool law_T01_build_ranges(Tree& t, IIt x, std::size_t n, std::size_t f, std::size_t depth, Bound& b, std::size_t i) {
    if (!(depth < t.options_.max_depth_ && n > t.options_.bucket_size_)) return true;
    const auto p = t.build(x, x + n, f, depth, b);
    return p->left_->begin() == x && p->left_->end() == p->begin() && p->end() == p->begin() + 1 && p->right_->begin() == p->end() && p->right_->end() == x + n &&
           ghost(*p->left_) == depth + 1 && ghost(*p->right_) == depth + 1 && p->left_->parent_.lock() == p && p->right_->parent_.lock() == p;
}
//@ build_bounds
bool law_T01_build_bounds(Tree& t, IIt x, std::size_t n, std::size_t f, std::size_t depth, Bound& b, std::size_t i) {
    if (!(depth < t.options_.max_depth_ && n > t.options_.bucket_size_) || !(i < b.segments_.size())) return true;
    const D lo = b.segment_at(i).lower_bound(), hi = b.segment_at(i).upper_bound();
    const auto p = t.build(x, x + n, f, depth, b);
    const std::size_t a = p->cut_axis_feature_index_;
    const D c = t.begin()[p->begin()[0] * t.n_features_ + a];
    const auto &l = p->left_->bound_.segment_at(i), &r = p->right_->bound_.segment_at(i), &m = p->bound_.segment_at(i);
    return m.lower_bound() == lo && m.upper_bound() == hi && l.lower_bound() == lo && r.upper_bound() == hi && l.upper_bound() == (i == a ? c : hi) && r.lower_bound() == (i == a ? c : lo);
}
//@ build_restore
bool law_T01_build_restores(Tree& t, IIt x, std::size_t n, std::size_t f, std::size_t depth, Bound& b, std::size_t i) {
    if (!(i < b.segments_.size())) return true;
    const D lo = b.segment_at(i).lower_bound(), hi = b.segment_at(i).upper_bound();
    t.build(x, x + n, f, depth, b);
    return b.segment_at(i).lower_bound() == lo && b.segment_at(i).upper_bound() == hi;
}

//@ root
bool law_T01_root(IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, const Tree::Options& o, std::size_t i) {
    if (!(i < d) || n == 0) return true;
    const Tree t(x, x + n, s, s + m * d, d, o);
    const auto b = ds::make_tight_bound<IIt, SIt, Bound>(x, x + n, s, s + m * d, d);
    const auto r = t.root();
    return r->begin() == x && r->end() == x + n && ghost(*r) == 0 && t.begin() == s && t.end() == s + m * d && t.n_features() == d && t.n_samples_ == n && t.options_.bucket_size_ == o.bucket_size_ && t.options_.max_depth_ == o.max_depth_ &&
           t.options_.axis_selection_policy_ptr_ == o.axis_selection_policy_ptr_ && t.options_.splitting_rule_policy_ptr_ == o.splitting_rule_policy_ptr_ && r->bound_.segment_at(i).lower_bound() == b.segment_at(i).lower_bound() && r->bound_.segment_at(i).upper_bound() == b.segment_at(i).upper_bound();
}
//@ options
bool law_T01_options(Tree::Options& o, std::size_t k, std::size_t e) {
    const auto a = o.axis_selection_policy_ptr_; const auto p = o.splitting_rule_policy_ptr_;
    o.bucket_size(k).max_depth(e);
    const Tree::Options q(o); Tree::Options w; w = o;
    return o.bucket_size_ == k && o.max_depth_ == e && o.axis_selection_policy_ptr_ == a && o.splitting_rule_policy_ptr_ == p && q.bucket_size_ == k && q.max_depth_ == e && q.axis_selection_policy_ptr_ == a && q.splitting_rule_policy_ptr_ == p && w.bucket_size_ == k && w.max_depth_ == e && w.axis_selection_policy_ptr_ == a && w.splitting_rule_policy_ptr_ == p;
}
//@ options_policy
bool law_T01_options_policy(Tree::Options& o, const std::vector<std::size_t>& k, const std::vector<std::size_t>& k2, IIt x, std::size_t n, SIt s, std::size_t m, std::size_t d, std::size_t depth, const Bound& b) {
    po::CycleThroughAxesBuild<IIt, SIt, Bound> c; c.feature_mask(k);
    const auto bs = o.bucket_size_, md = o.max_depth_;
    o.axis_selection_policy(c);
    c.feature_mask(k2);
    return (*o.axis_selection_policy_ptr_)(x, x + n, s, s + m * d, d, depth, b) == (k.size() == 0 ? depth % d : k[depth % k.size()]) && o.bucket_size_ == bs && o.max_depth_ == md;
}
//@ copies
bool law_T01_copies(Tree& t, std::size_t i) {
    const auto r = t.root_; const auto s = t.samples_range_first_; const auto e = t.samples_range_last_; const auto n = t.n_samples_, d = t.n_features_; const auto bs = t.options_.bucket_size_, md = t.options_.max_depth_;
    const auto ap = t.options_.axis_selection_policy_ptr_; const auto sp = t.options_.splitting_rule_policy_ptr_;
    const D lo = t.bound_.segment_at(i).lower_bound(), hi = t.bound_.segment_at(i).upper_bound();
    const auto same = [&](const Tree& u) { return u.root_ == r && u.samples_range_first_ == s && u.samples_range_last_ == e && u.n_samples_ == n && u.n_features_ == d && u.options_.bucket_size_ == bs && u.options_.max_depth_ == md && u.options_.axis_selection_policy_ptr_ == ap && u.options_.splitting_rule_policy_ptr_ == sp && u.bound_.segment_at(i).lower_bound() == lo && u.bound_.segment_at(i).upper_bound() == hi; };
    const Tree c(t);
    const bool kept = same(t) && same(c);
    const Tree v(std::move(t));
    return kept && same(v);
}
