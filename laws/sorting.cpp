#include "prelude.hpp"
namespace al = ffcl::common::algorithms;
using I = std::size_t;
using VI = std::vector<I>;
using VD = std::vector<D>;
//@ partition
bool law_Q01_partition_splits(VI& x, const VD& v, I d, I f, I p, I i) {
    const I n = x.size();
    if (!(p < n && f < d && i < n)) return true;
    const D w = v[x[p] * d + f];
    const I q = al::partition_around_pivot_index(x.begin(), x.end(), v.begin(), v.end(), d, p, f);
    const D u = v[x[q] * d + f], y = v[x[i] * d + f];
    return q < n && u == w && (i < q ? y <= u : u <= y);
}
//@ partition_perm
bool law_Q01_partition_permutes(VI& x, const VD& v, I d, I f, I p, I i) {
    const I n = x.size();
    if (!(p < n && f < d && i < n)) return true;
    I a = 0, b = 0;
    const I t = x[i];
    for (I j = 0; j < n; ++j) a += x[j] == t;
    al::partition_around_pivot_index(x.begin(), x.end(), v.begin(), v.end(), d, p, f);
    for (I j = 0; j < x.size(); ++j) b += x[j] == t;
    return a == b && x.size() == n;
}
//@ select
bool law_Q01_select_splits(VI& x, const VD& v, I d, I f, I k, I i) {
    const I n = x.size();
    if (!(k < n && f < d && i < n)) return true;
    const auto r = al::quickselect(x.begin(), x.end(), v.begin(), v.end(), d, k, f);
    const D u = v[x[k] * d + f], y = v[x[i] * d + f];
    return r.first == x.begin() + k && r.second == x.begin() + k + 1 && (i < k ? y <= u : u <= y);
}
//@ select_perm
bool law_Q01_select_permutes(VI& x, const VD& v, I d, I f, I k, I i) {
    const I n = x.size();
    if (!(k < n && f < d && i < n)) return true;
    I a = 0, b = 0;
    const I t = x[i];
    for (I j = 0; j < n; ++j) a += x[j] == t;
    al::quickselect(x.begin(), x.end(), v.begin(), v.end(), d, k, f);
    for (I j = 0; j < x.size(); ++j) b += x[j] == t;
    return a == b && x.size() == n;
}
// what a recursive call leaves behind: its range in order
I sorted(const VI::iterator& a, const VI::iterator& e, const VD::const_iterator& s, const VD::const_iterator& t, I d, I p, I f) {
    const I n = e - a;
    for (I j = 1; j < n; ++j)
        for (I k = j; k > 0 && s[a[k] * d + f] < s[a[k - 1] * d + f]; --k) { const I w = a[k]; a[k] = a[k - 1]; a[k - 1] = w; }
    return p;
}
//! Q01_sort call:ffcl::common::algorithms::quicksort -> sorted
//@ sort
bool law_Q01_sort_orders(VI& x, const VD& v, I d, I f, I p, I i) {
    const I n = x.size();
    if (!(p < n && f < d && i + 1 < n)) return true;
    al::quicksort(x.begin(), x.end(), v.begin(), v.end(), d, p, f);
    return v[x[i] * d + f] <= v[x[i + 1] * d + f];
}
//@ sort_perm
bool law_Q01_sort_permutes(VI& x, const VD& v, I d, I f, I p, I i) {
    const I n = x.size();
    if (!(p < n && f < d && i < n)) return true;
    I a = 0, b = 0;
    const I t = x[i];
    for (I j = 0; j < n; ++j) a += x[j] == t;
    al::quicksort(x.begin(), x.end(), v.begin(), v.end(), d, p, f);
    for (I j = 0; j < x.size(); ++j) b += x[j] == t;
    return a == b && x.size() == n;
}
