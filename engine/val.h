// Symbolic values: concrete bit-vectors up to 128 bits, z3 terms, pointers as (object, offset).
#pragma once
#include <z3++.h>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cmath>
#include <cassert>

typedef unsigned __int128 u128;
typedef __int128 i128;

extern z3::context* ZC;
#define Z (*ZC)

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

struct Val {
    enum K : uint8_t { Undef, Int, FP, Agg };
    K k = Undef;
    bool sym = false;
    uint32_t w = 0;
    int obj = -1;
    u128 c = 0;
    z3::expr e;
    std::shared_ptr<std::vector<Val>> agg;
    std::shared_ptr<Val> xi;  // FP only: 64-bit signed integer equal to the value, |xi| <= 2^53
    Val() : e(Z) {}
    static Val I(u128 v, unsigned w) {
        Val r;
        r.k = Int;
        r.w = w;
        r.c = v & maskw(w);
        return r;
    }
    static Val S(const z3::expr& x, unsigned w);
    static Val P(int obj, Val off) {
        off.obj = obj;
        return off;
    }
    bool isC() const { return !sym && k != Undef; }
    bool isPtr() const { return obj >= 0; }
    uint64_t u64() const { return (uint64_t)c; }
};

static inline z3::expr bvval(u128 v, unsigned w) {
    if (w <= 64) return Z.bv_val((uint64_t)v, w);
    z3::expr hi = Z.bv_val((uint64_t)(v >> 64), w - 64), lo = Z.bv_val((uint64_t)v, 64);
    return z3::concat(hi, lo);
}
static inline bool numeral(const z3::expr& x, u128& out) {
    if (x.is_bool()) {
        if (x.is_true()) { out = 1; return true; }
        if (x.is_false()) { out = 0; return true; }
        return false;
    }
    if (!x.is_bv() || !x.is_numeral()) return false;
    unsigned w = x.get_sort().bv_size();
    if (w <= 64) { out = x.get_numeral_uint64(); return true; }
    std::string s = x.get_decimal_string(0);
    u128 v = 0;
    for (char ch : s) v = v * 10 + (ch - '0');
    out = v;
    return true;
}
inline Val Val::S(const z3::expr& x, unsigned w) {
    u128 v;
    if (numeral(x, v)) return I(v, w);
    Val r;
    r.k = Int;
    r.w = w;
    r.sym = true;
    r.e = x;
    return r;
}
// term of an integer value (Bool sort for w==1); the pointer base is NOT included
static inline z3::expr T(const Val& v) {
    if (v.sym) return v.e;
    if (v.w == 1) return Z.bool_val(v.c != 0);
    return bvval(v.c, v.w);
}
static inline z3::expr b2bv(const z3::expr& b, unsigned w) { return z3::ite(b, Z.bv_val(1, w), Z.bv_val(0, w)); }
// as bit-vector of width w even for w==1
static inline z3::expr TB(const Val& v) {
    if (v.w == 1) return v.sym ? b2bv(v.e, 1) : Z.bv_val((unsigned)v.c, 1);
    return T(v);
}
static inline z3::sort fpsort(unsigned w) { return w == 32 ? Z.fpa_sort(8, 24) : Z.fpa_sort(11, 53); }
static inline z3::expr bv2fp(const z3::expr& b, unsigned w) {
    return z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, b, fpsort(w)));
}
static inline z3::expr fpT(const Val& v) {  // FP-sorted term
    if (v.sym) {
        if (v.e.is_fpa()) return v.e;
        return bv2fp(v.e, v.w);
    }
    return bv2fp(bvval(v.c, v.w), v.w);
}
static inline z3::expr fpBits(const Val& v) {  // BV term of an FP value
    if (!v.sym) return bvval(v.c, v.w);
    if (v.e.is_bv()) return v.e;
    return z3::expr(Z, Z3_mk_fpa_to_ieee_bv(Z, v.e));
}
static inline Val mkFP(const z3::expr& fp, unsigned w) {
    Val r;
    r.k = Val::FP;
    r.w = w;
    r.sym = true;
    r.e = fp;
    return r;
}
static inline Val mkFPc(double d, unsigned w) {
    Val r;
    r.k = Val::FP;
    r.w = w;
    if (w == 32) {
        float f = (float)d;
        uint32_t b;
        memcpy(&b, &f, 4);
        r.c = b;
    }
    else {
        uint64_t b;
        memcpy(&b, &d, 8);
        r.c = b;
    }
    return r;
}
static inline double fpC(const Val& v) {
    if (v.w == 32) {
        uint32_t b = (uint32_t)v.c;
        float f;
        memcpy(&f, &b, 4);
        return f;
    }
    uint64_t b = (uint64_t)v.c;
    double d;
    memcpy(&d, &b, 8);
    return d;
}
// reinterpret any scalar value as an integer of the same width
static inline Val asInt(const Val& v) {
    if (v.k == Val::FP) {
        if (!v.sym) return Val::I(v.c, v.w);
        return Val::S(fpBits(v), v.w);
    }
    return v;
}
static inline Val asFP(const Val& v) {
    if (v.k == Val::FP) return v;
    Val r = v;
    r.k = Val::FP;
    r.obj = -1;
    return r;
}
