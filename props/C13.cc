// C13: multi-dimensional indexing
//@ tus: utils/HyperCube.cc exception/Exceptions.cc thread/Mutex.cc
//@ libs: eckit_linalg eckit
#include "vc.h"
#include <cstring>
#include <vector>
#include "eckit/utils/HyperCube.h"
#include "eckit/linalg/Tensor.h"
using namespace eckit;
using eckit::linalg::Tensor;
typedef std::vector<size_t> Vec;

static size_t rank_, d[4], c[4];
static size_t small;   // bound on the extents in a bounded check
static size_t total;   // number of elements
// extents: any, as long as the number of elements is below 2^48
static void shape(size_t most, size_t lowest = 1) {
    rank_ = vc_split(vc_range(lowest, most, "rank"), lowest, most);
    total = 1;
    for (size_t i = 0; i < rank_; i++) {
        d[i] = vc_range(1, small ? small : vc_bounded() ? 5 : 1ull << (48 / most), "extent");
        total *= d[i];
    }
}
static void coordinates() {
    for (size_t i = 0; i < rank_; i++) {
        c[i] = vc_range(0, vc_bounded() ? 4 : (1 << 24) - 1, "coordinate");
        vc_assume(c[i] < d[i]);
    }
}
static size_t lastFastest() {
    size_t a = c[0];
    for (size_t i = 1; i < rank_; i++) a = a * d[i] + c[i];
    return a;
}
static size_t firstFastest() {
    size_t a = c[rank_ - 1];
    for (size_t i = rank_ - 1; i-- > 0;) a = a * d[i] + c[i];
    return a;
}
//@ harness hypercube: time=200
VC_HARNESS(hypercube) {
    vc_option("intlift", 1);
    shape(3);
    coordinates();
    HyperCube h(Vec(d, d + rank_));
    vc_check(h.count() == total, "the number of elements is the product of the extents");
    size_t a = h.index(Vec(c, c + rank_));
    vc_check(a == lastFastest(), "elements are numbered in order, the last dimension changing fastest");
    vc_check(a < total, "the number of an element is below the number of elements");
    Vec r(rank_);
    h.coordinates(a, r);
    for (size_t i = 0; i < rank_; i++) vc_check(r[i] == c[i], "the number leads back to the coordinates");
}
//@ harness onto: time=200
VC_HARNESS(onto) {
    vc_option("intlift", 1);
    shape(3);
    HyperCube h(Vec(d, d + rank_));
    size_t a = vc_range(0, vc_bounded() ? 130 : (1ull << 48), "number");
    Vec r(rank_);
    bool refused = VC_THROWS(h.coordinates(a, r));
    vc_check(refused == (a >= total), "a number is refused exactly when there is no such element");
    if (refused) return;
    for (size_t i = 0; i < rank_; i++) vc_check(r[i] < d[i], "coordinates lie within the extents"), c[i] = r[i];
    vc_check(lastFastest() == a, "the coordinates are those of the element of this number");
}
VC_HARNESS(outside) {
    vc_option("intlift", 1);
    shape(3);
    HyperCube h(Vec(d, d + rank_));
    bool in = true;
    for (size_t i = 0; i < rank_; i++) {
        c[i] = vc_range(0, vc_bounded() ? 6 : (1 << 24), "coordinate");
        in = in & (c[i] < d[i]);
    }
    size_t n = vc_split(vc_range(1, 4, "coordinates given"), 1, 4);
    Vec v(n);
    for (size_t i = 0; i < n && i < rank_; i++) v[i] = c[i];
    vc_check(VC_THROWS(h.index(v)) == (n != rank_ || !in), "coordinates outside the extents are refused");
    Vec r(n);
    if (n != rank_) vc_check(VC_THROWS(h.coordinates(0, r)), "the wrong number of coordinates is refused");
}
// ------------------------------------------------------------------ tensors
using T = Tensor<double>;
static T::Layout layout() { return vc_bool("row major") ? T::Layout::RowMajor : T::Layout::ColMajor; }
static size_t place(T::Layout l) { return l == T::Layout::RowMajor ? lastFastest() : firstFastest(); }
//@ harness tensor: time=200
VC_HARNESS(tensor) {
    vc_option("intlift", 1);
    shape(4);
    coordinates();
    double* a = (double*)vc_array(total, 8, "elements");
    T::Layout l = layout();
    T t(a, Vec(d, d + rank_), l);
    vc_check(t.size() == total && t.shape().size() == rank_, "the number of elements is the product of the extents");
    double* e = rank_ == 1 ? &t(c[0]) : rank_ == 2 ? &t(c[0], c[1]) : rank_ == 3 ? &t(c[0], c[1], c[2]) : &t(c[0], c[1], c[2], c[3]);
    size_t p = place(l);
    vc_check(p < total && e == a + p, "an element is where the layout puts it");
    vc_check(t.data() == a && t.end() - t.begin() == (ptrdiff_t)total, "the elements are those given");
}
static u_int64_t bits(const double* p) {
    u_int64_t v;
    memcpy(&v, p, 8);
    return v;
}
static bool equal(const T& t, const T& o) {
    bool ok = (t.size_ == o.size_) & (t.layout_ == o.layout_) & (t.shape_.size() == rank_) & (t.strides_.size() == rank_);
    for (size_t i = 0; i < rank_ && ok; i++) ok = ok & (t.shape_[i] == d[i]) & (t.strides_[i] == o.strides_[i]);
    return ok;
}
VC_HARNESS(copies) {
    vc_option("intlift", 1);
    shape(3);
    double* a = (double*)vc_array(total, 8, "elements");
    T& t = *new T(a, Vec(d, d + rank_), layout());
    if (vc_bool("owner")) t.own_ = true;
    size_t k = vc_size(20, "k");
    vc_assume(k < total);
    u_int64_t was = bits(a + k);
    switch (vc_split(vc_range(0, 3, "how"), 0, 3)) {
        case 0: {
            T& u = *new T(t);
            vc_check(equal(u, t) && u.own_ && u.data() != a && bits(u.data() + k) == was, "a copy has the same elements");
            u.data()[k] = 7;
            vc_check(bits(a + k) == was, "a copy is independent of the original");
            break;
        }
        case 1: {
            T& u = *new T(Vec(1, vc_range(1, 60, "other extent")), layout());
            u = t;
            vc_check(equal(u, t) && u.own_ && u.data() != a && bits(u.data() + k) == was, "an assigned copy has the same elements");
            u.data()[k] = 7;
            vc_check(bits(a + k) == was, "a copy is independent of the original");
            break;
        }
        case 2: {
            bool own = t.own_;
            T& r = *new T(a, Vec(d, d + rank_), t.layout_);
            T& u = *new T(std::move(t));
            vc_check(equal(u, r) && u.own_ == own && u.data() == a && bits(a + k) == was, "moving takes the elements over");
            vc_check(t.size() == 0 && !t.own_ && t.data() == nullptr, "nothing is left behind");
            break;
        }
        default: {
            bool own = t.own_;
            T& r = *new T(a, Vec(d, d + rank_), t.layout_);
            T& u = *new T(Vec(1, 5), layout());
            u = std::move(t);
            vc_check(equal(u, r) && u.own_ == own && u.data() == a && bits(a + k) == was, "moving takes the elements over");
            vc_check(t.size() == 0 && !t.own_ && t.data() == nullptr, "nothing is left behind");
        }
    }
}
// one element followed through a change of layout
static size_t from, to;
static u_int64_t value;
static void transform(bool right, size_t most, size_t least) {
    vc_option("intlift", 1);
    small = 3;
    shape(most, least);
    for (size_t i = 0; i < rank_; i++) d[i] = vc_split(d[i], 1, 3);
    total = 1;
    for (size_t i = 0; i < rank_; i++) total *= d[i];
    coordinates();
    double* a = (double*)vc_array(total, 8, "elements");
    T& t = *new T(a, Vec(d, d + rank_), right ? T::Layout::ColMajor : T::Layout::RowMajor);
    from = place(t.layout());
    T::Layout l = right ? T::Layout::RowMajor : T::Layout::ColMajor;
    to = place(l);
    value = bits(a + from);
    T* u = right ? new T(t.transformColMajorToRowMajor()) : new T(t.transformRowMajorToColMajor());
    vc_check(bits(u->data() + to) == value, "an element keeps its coordinates when the layout changes");
    T& r = *new T(a, Vec(d, d + rank_), l);
    vc_check(equal(*u, r) && u->own_, "the layout, extents and strides are the new ones");
}
//@ harness to_right: bounded time=300 unroll=40
VC_HARNESS(to_right) { transform(true, 3, 1); }
//@ harness to_left: bounded time=300 unroll=40
VC_HARNESS(to_left) { transform(false, 3, 1); }
// ------------------------------------------------------------------ adding labels to a dimension
//@ harness add_labels: bounded time=300 unroll=40
VC_HARNESS(add_labels) {
    small = 3;
    shape(3);
    for (size_t i = 0; i < rank_; i++) d[i] = vc_split(d[i], 1, 3);
    for (size_t i = 0; i < rank_; i++) c[i] = vc_split(vc_range(0, d[i] - 1, "coordinate"), 0, d[i] - 1);
    size_t which = vc_split(vc_range(0, rank_ - 1, "dimension"), 0, rank_ - 1);
    size_t where = vc_split(vc_range(0, d[which], "position"), 0, d[which]), much = vc_split(vc_range(0, 2, "labels"), 0, 2);
    HyperCube h(Vec(d, d + rank_));
    Vec remap;
    HyperCube t = h.addToDimension(which, where, much, remap);
    vc_check(remap.size() == h.count(), "every element is mapped");
    size_t at = h.index(Vec(c, c + rank_));
    for (size_t i = 0; i < rank_; i++) vc_check(t.dimensions(i) == d[i] + (i == which ? much : 0), "the dimension gets the labels");
    if (c[which] >= where) c[which] += much;
    vc_check(remap[at] == t.index(Vec(c, c + rank_)), "an element moves with its labels");
}
static size_t n1, n2, K;
static size_t *m1, *m2, was;
static size_t* put(Vec& v, size_t n, const char* name) {
    size_t* p = (size_t*)vc_array(n, 8, name);
    if (!vc_symbolic()) {
        v.assign(p, p + n);
        return p;
    }
    auto& i = v._M_impl;
    i._M_start = p, i._M_finish = i._M_end_of_storage = p + n;
    return p;
}
static bool inv_combine(Vec& map1, const Vec& map2, Vec::iterator& i) {
    size_t* p = &*i;
    size_t k = size_t((const char*)p - (const char*)m1) / 8, l = vc_peek(m1, K, 8, true);
    return (&map1 != nullptr) & (p >= m1) & (p <= m1 + n1) & (((const char*)p - (const char*)m1) % 8 == 0) & (&map2 != nullptr) &
           vc_imp(k <= K, l == was) & vc_imp(k > K, (was < n2) & (l == vc_peek(m2, was, 8, was < n2)));
}
VC_HARNESS(combine) {
    vc_loop("eckit::HyperCube::combine", 0, (void*)inv_combine);
    n1 = vc_size(8, "elements"), n2 = vc_size(8, "other");
    vc_assume(n1 > 0);
    Vec& a = *new Vec;
    Vec& b = *new Vec;
    m1 = put(a, n1, "map"), m2 = put(b, n2, "other map");
    K = vc_size(8, "k");
    vc_assume(K < n1);
    was = m1[K];
    bool refused = VC_THROWS(HyperCube::combine(a, b));
    if (!refused) vc_check(was < n2 && a[K] == m2[was], "one map is followed by the other");
    else vc_cover("refused");
    bool in = true;
    if (!vc_symbolic()) {
        for (size_t i = 0; i < n1; i++) in = in && m1[i] < n2;
        vc_check(refused == !in, "an element that is not mapped further is refused");
    }
}
