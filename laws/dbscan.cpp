#include "prelude.hpp"
namespace ds = ffcl::datastruct;
namespace se = ffcl::search;
namespace bf = ffcl::search::buffer;
using I    = std::size_t;
using Tree = ds::KDTree<IIt, SIt>;
using Srch = se::Searcher<Tree>;
using DB   = ffcl::DBSCAN<Tree>;
using Ball = ds::bounds::BallView<SIt>;
using U    = bf::Unsorted<SIt, Ball>;
using Flat = std::vector<I>;
static I few(D x, I n) { return I(x < 0 ? -x : x) % n; }
static I total() { return 1 + few(uf(64), 6); }
static I many(SIt f, SIt l, D r) { return few(uf(60, f, l, r), 5); }
static I near(SIt f, SIt l, D r, I j) { return few(uf(61, f, l, r, j), total()); }
U in_ball(const Srch& s, U&& b) {
    const I n = many(b.centroid_begin(), b.centroid_end(), b.bound_.radius_);
    b.indices_.resize(n);
    for (I j = 0; j < n; ++j) b.indices_[j] = near(b.centroid_begin(), b.centroid_end(), b.bound_.radius_, j);
    return std::move(b);
}
//@ options
bool law_L01_options(DB::Options& o, I m, D r) {
    const DB::Options d;
    const auto m0 = o.min_samples_; const auto r0 = o.radius_;
    DB::Options a(o), b(o);
    a.min_samples(m); b.radius(r);
    DB::Options w; w = o;
    const DB x(o); DB y; y.set_options(o);
    return a.min_samples_ == m && a.radius_ == r0 && b.min_samples_ == m0 && b.radius_ == r && w.min_samples_ == m0 && w.radius_ == r0 && x.options_.min_samples_ == m0 && x.options_.radius_ == r0 && y.options_.min_samples_ == m0 && y.options_.radius_ == r0 && d.min_samples_ == 5 && d.radius_ == D(0.1);
}
//! L01_grow ffcl::search::Searcher::operator() -> in_ball
//@ grow
bool law_L01_grow(const DB& t, I m, const I& c, const Srch& s, I i) {
    // any work list, visited flags and labels
    const I n0 = total();
    Flat q(1 + few(uf(65), 3)), p(n0), w(q.size()), g(n0), u(n0);
    std::unique_ptr<bool[]> v = std::make_unique<bool[]>(n0);
    for (I j = 0; j < q.size(); ++j) { q[j] = few(uf(66, j), n0); w[j] = few(uf(66, j), n0); }
    for (I j = 0; j < n0; ++j) { p[j] = few(uf(67, j), 3); g[j] = few(uf(67, j), 3); v[j] = uf(68, j) > 0; u[j] = uf(68, j) > 0 ? 1 : 0; }
    if (!(i < n0)) return true;
    t.predict_inner(q, v, p, c, s);
    for (I k = 0; k < w.size(); ++k) {
        const I x = w[k];
        if (!u[x]) {
            u[x] = 1;
            const auto f = s.features_range_first(x), l = s.features_range_last(x);
            const I n = many(f, l, t.options_.radius_);
            if (n > t.options_.min_samples_)
                for (I j = 0; j < n; ++j) { const I y = near(f, l, t.options_.radius_, j); w.push_back(y); }
        }
        if (g[x] == 0) g[x] = c;
    }
    return p[i] == g[i] && v[i] == (u[i] != 0);
}
// growing a cluster visits some samples and labels the unlabelled ones among them (exactly which: law_L01_grow)
template <class N, class V, class P>
void grow(const DB& t, N& n, V& v, P& p, const I& c, const Srch& s) {
    D h = 0;
    for (I j = 0; j < n.size(); ++j) h += uf(63, n[j]);
    for (I j = 0; j < p.size(); ++j)
        if (uf(62, c, j, h) > 0) { v[j] = true; if (p[j] == 0) p[j] = c; }
}
//! L01_predict ffcl::search::Searcher::operator() -> in_ball
//! L01_predict ffcl::DBSCAN::predict_inner -> grow_any
void grow_any(const DB& t, Flat& n, std::unique_ptr<bool[]>& v, Flat& p, const I& c, const Srch& s) { grow(t, n, v, p, c, s); }
//@ predict
bool law_L01_predict(const DB& t, Tree& u, I i) {
    const Srch s(u);
    const I m = s.n_samples();
    if (!(i < m)) return true;
    Flat g(m), v(m);
    I c = 0;
    for (I k = 0; k < m; ++k) {
        if (v[k]) continue;
        v[k] = 1;
        const auto f = s.features_range_first(k), l = s.features_range_last(k);
        const I n = many(f, l, t.options_.radius_);
        if (n > t.options_.min_samples_) {
            ++c;
            g[k] = c;
            D h = 0;
            for (I j = 0; j < n; ++j) h += uf(63, near(f, l, t.options_.radius_, j));
            for (I j = 0; j < m; ++j) if (uf(62, c, j, h) > 0) { v[j] = 1; if (g[j] == 0) g[j] = c; }
        }
    }
    const auto p = t.predict(std::move(u));
    return p.size() == m && p[i] == g[i];
}
