// C17: HEALPix ring <-> nested numbering
//@ tus: exception/Exceptions.cc geo/Exceptions.cc geo/grid/reduced/HEALPix.cc
//@ libs: eckit_geo eckit_spec eckit
//@ assume: std::sqrt is correctly rounded (IEEE 754) and not negative, log2 of a power of two is exact
#include "vc.h"
#include <cmath>
#include <vector>
#include "eckit/geo/order/HEALPix.cc"
using namespace eckit::geo;
#define NS "eckit::geo::order::(anonymous namespace)::"

// ---- contract of sqrt(int): the largest s with s*s <= n, seen at any number h
static int H_;   // numbers at which the contract is needed
static int G_;
static int isqrt_c(int n) {
    vc_check(n >= 0 && (long)H_ * H_ <= (long)n && (long)n < (long)G_ * G_, "the root is that of the ring");
    return H_ + (int)vc_split(vc_ghost_u64() & 1, 0, 1);   // (at least H, below G = H + 2)
}
static double sqrt_c(double x) {   // correctly rounded: no representable number lies between it and the root
    double y = vc_ghost_f64();
    long X = (long)(2 * x);
    vc_check((double)X == 2 * x && X >= 0 && X < (1L << 33), "the argument is a multiple of one half");
    double h = H_, g = h - 0x1p-18;
    vc_assume((y >= 0) & (y < 65536));
    vc_assume(vc_imp(2L * H_ * H_ <= X, y >= h));
    vc_assume(vc_imp((H_ > 0) & (X * 65536 <= (long)H_ * H_ * 131072 - H_), y <= g));   // x <= h^2 - h/2^17 <= g^2
    return y;
}
VC_HARNESS(root) {   // sqrt(int) satisfies its contract
    vc_replace("sqrt", (void*)sqrt_c);
    int n = (int)vc_range(0, 0x7fffffff, "n");
    H_ = (int)vc_range(0, 46341, "h");
    int s = order::sqrt(n);
    vc_check((s >= H_) == ((long)H_ * H_ <= (long)n), "the root is the largest number whose square is not larger");
}
static int spread(int x, int k) {   // bit b goes to bit 2b
    int r = 0;
    for (int b = 0; b < k; b++) r |= ((x >> b) & 1) << (2 * b);
    return r;
}
static int nside(int& k) {
    k = (int)vc_split(vc_range(0, 13, "k"), 0, 13);
    return 1 << k;
}
VC_HARNESS(interleave) {
    int k;
    nside(k);
    int x = (int)vc_range(0, (1u << k) - 1, "x"), y = (int)vc_range(0, (1u << k) - 1, "y"), f = (int)vc_range(0, 11, "face");
    int n = (f << (2 * k)) + spread(x, k) + 2 * spread(y, k);
    vc_check(order::CodecFijNest::fij_to_nest(f, x, y, k) == n, "nested numbers are the face and the interleaved bits of the coordinates");
    auto [f2, x2, y2] = order::CodecFijNest::nest_to_fij(n, k);
    vc_check(f2 == f && x2 == x && y2 == y, "and lead back to them");
}
// a pixel, given by its face, its ring and its first coordinate (all of them), and its ring number (Gorski et al. 2005)
struct Pixel {
    int k, N, f, x, y, ring, nr, n;
    long r;
};
static Pixel pixel(int rowOf) {   // of the faces of the north, of the equator or of the south
    Pixel p;
    p.N = nside(p.k);
    p.f = (int)vc_split(vc_range(4 * rowOf, 4 * rowOf + 3, "face"), 4 * rowOf, 4 * rowOf + 3);
    int N = p.N, row = p.f / 4, F2 = 2 * (p.f % 4) + (row == 1 ? 0 : 1), shift = 0;
    int zone = row == 1 ? 1 : row + (int)vc_split(vc_range(0, 1, "zone"), 0, 1) * (row ? -1 : 1);
    long before;
    if (zone == 1) {
        shift = (int)vc_split(vc_range(0, 1, "odd"), 0, 1);
        p.ring = N + 2 * (int)vc_range(0, N, "ring") + shift;
        vc_assume(p.ring <= 3 * N);
        p.nr = N;
        before = 2L * N * (N - 1) + 4L * N * (p.ring - N);
    }
    else {
        p.nr = (int)vc_range(1, N, "ring");
        vc_assume(p.nr < N);
        p.ring = zone == 0 ? p.nr : 4 * N - p.nr;
        before = zone == 0 ? 2L * p.nr * (p.nr - 1) : 12L * N * N - 2L * (p.nr + 1) * p.nr;
    }
    p.x = (int)vc_range(0, N - 1, "x");
    p.y = (row + 2) * N - 1 - p.ring - p.x;
    vc_assume(p.y >= 0 && p.y < N);
    int j = (F2 * p.nr + p.x - p.y + 1 + shift) / 2;   // counted from 1
    if (j < 1) j += 4 * N;
    p.r = before + j - 1;
    if (vc_symbolic()) p.n = vc_i32("n");   // (what fij_to_nest and nest_to_fij convert)
    else p.n = (p.f << (2 * p.k)) + spread(p.x, p.k) + 2 * spread(p.y, p.k);
    return p;
}
static int gf, gx, gy, gk, gn;   // the pixel: face, coordinates, nested number
static std::tuple<int, int, int> decode_c(int n, int k) {   // (proved above)
    vc_check(n == gn && k == gk, "the number asked for is taken apart");
    return {gf, gx, gy};
}
static int encode_c(int f, int i, int j, int k) {
    vc_check(f == gf, "the face is that of the pixel");
    vc_check(i == gx && j == gy && k == gk, "the coordinates are those of the pixel");
    return gn;
}
static void toRing(int row) {
    vc_option("intlift", 1);
    Pixel p = pixel(row);
    order::Renumber m(p.N);
    vc_replace(NS "CodecFijNest::nest_to_fij(int, int)", (void*)decode_c);
    gf = p.f, gx = p.x, gy = p.y, gk = p.k, gn = p.n;
    long r = m.nest_to_ring(gn);
    vc_check(r >= 0 && r < 12L * p.N * p.N, "a ring number lies within the grid");
    vc_check(r == p.r, "the ring number of a nested pixel is the one of the HEALPix definition");
}
static void back(int row) {
    vc_option("intlift", 1);
    Pixel p = pixel(row);
    order::Renumber m(p.N);
    vc_replace(NS "CodecFijNest::fij_to_nest(int, int, int, int)", (void*)encode_c);
    vc_replace(NS "sqrt(int)", (void*)isqrt_c);
    gf = p.f, gx = p.x, gy = p.y, gk = p.k, gn = p.n;
    H_ = 2 * p.nr - 1, G_ = 2 * p.nr + 1;
    if (p.N == 1) vc_check(m.ring_to_nest((int)p.r) == p.f, "the only pixel of a face has the number of the face");
    else vc_check(m.ring_to_nest((int)p.r) == gn, "the ring number leads back to the nested pixel");
}
//@ harness to_ring_north: time=300
//@ harness to_ring_middle: time=300
//@ harness to_ring_south: time=300
//@ harness back_north: time=500
//@ harness back_middle: time=500
//@ harness back_south: time=500
VC_HARNESS(back_north) { back(0); }
VC_HARNESS(back_middle) { back(1); }
VC_HARNESS(back_south) { back(2); }
VC_HARNESS(to_ring_north) { toRing(0); }
VC_HARNESS(to_ring_middle) { toRing(1); }
VC_HARNESS(to_ring_south) { toRing(2); }
// ------------------------------------------------------------------ all pixels of a grid
typedef order::HEALPix::renumber_type Numbers;
static int K, N_, was;   // one of the pixels, and where it goes
static bool fromNested;
static int c_any(const void*, int i) {
    if (i != K) return (int)vc_ghost_u64();
    return was;
}
static int c_to_ring(const order::Renumber* m, int i) {
    vc_check(fromNested && m->Nside_ == N_, "the renumbering is the one asked for");
    return c_any(m, i);
}
static int c_to_nest(const order::Renumber* m, int i) {
    vc_check(!fromNested && m->Nside_ == N_, "the renumbering is the one asked for");
    return c_any(m, i);
}
static void c_renumber(order::Renumber* m, int N) {   // (the constructor is proved in the other harnesses)
    vc_check((N & (N - 1)) == 0, "the renumbering is asked for a power of two");
    const_cast<int&>(m->Nside_) = N;
}
static bool inv_all(Numbers& ren, int& size, int& i) {
    auto* p = ren.data();
    return (ren.size() == size_t(size)) & (i >= 0) & (i <= size) & vc_imp(K < i, (long)vc_peek(p, K, sizeof(*p), K < i) == was);
}
typedef Numbers::iterator It;
static bool inv_iota(It& __first, It& __last, int& __value) {
    int S = 12 * N_ * N_;
    auto* p = __last.base() - S;
    return (__value >= 0) & (__value <= S) & (__first.base() == p + __value) & vc_imp(K < __value, (long)vc_peek(p, K, sizeof(*p), K < __value) == K);
}
static void all(bool from, bool to) {
    if (vc_symbolic()) {   // (static initialisation is not executed)
        new ((void*)&order::HEALPix::RING) std::string("ring");
        new ((void*)&order::HEALPix::NESTED) std::string("nested");
    }
    N_ = (int)vc_range(1, 8192, "Nside");
    K = (int)vc_range(0, 12 * 8192 * 8192 - 1, "pixel");
    vc_assume((N_ & (N_ - 1)) == 0);
    vc_assume(K < 12 * N_ * N_);
    fromNested = from;
    if (!vc_symbolic()) vc_assume(N_ <= 64);   // (a run, not a proof: kept short)
    if (vc_symbolic()) was = vc_i32("goes to");
    else was = fromNested ? order::Renumber(N_).nest_to_ring(K) : order::Renumber(N_).ring_to_nest(K);
    vc_replace(NS "Renumber::nest_to_ring(int) const", (void*)c_to_ring);
    vc_replace(NS "Renumber::ring_to_nest(int) const", (void*)c_to_nest);
    vc_replace(NS "Renumber::Renumber(int)", (void*)c_renumber);
    vc_loop("eckit::geo::order::HEALPix::reorder", 0, (void*)inv_all);
    vc_loop("std::iota", 0, (void*)inv_iota);
    order::HEALPix h(fromNested ? order::HEALPix::NESTED : order::HEALPix::RING);
    auto ren = h.reorder(to ? order::HEALPix::NESTED : order::HEALPix::RING, N_);
    vc_check(ren.size() == size_t(12) * N_ * N_, "every pixel of the grid is given a number");
    vc_check(ren[K] == (fromNested == to ? K : was), "each pixel is given its number in the other order");
}
VC_HARNESS(all_to_ring) { all(true, false); }
VC_HARNESS(all_to_nested) { all(false, true); }
VC_HARNESS(all_kept_nested) { all(true, true); }
VC_HARNESS(all_kept_ring) { all(false, false); }
