// Folding constructors on Val.
#pragma once
#include "val.h"
#include <llvm/IR/InstrTypes.h>

static inline Val simp(Val v) {
    if (!v.sym || v.k != Val::Int) return v;
    int obj = v.obj;
    Val r = Val::S(v.e.simplify(), v.w);
    r.obj = obj;
    return r;
}
static inline u128 addrBase(int obj) { return (u128)((uint64_t)(obj + 1) << 40); }
// drop a pointer base: numeric address
static inline Val flat(const Val& v) {
    if (v.obj < 0) return v;
    Val r = v;
    int obj = r.obj;
    r.obj = -1;
    if (!r.sym) { r.c = (r.c + addrBase(obj)) & maskw(r.w); return r; }
    return Val::S(r.e + bvval(addrBase(obj), r.w), r.w);
}
static inline bool sameTerm(const Val& a, const Val& b) {
    if (a.sym != b.sym) return false;
    if (!a.sym) return a.c == b.c;
    return z3::eq(a.e, b.e);
}
// split x = base + const for syntactic reasoning
static inline void splitAdd(const z3::expr& x, z3::expr& base, u128& c) {
    base = x;
    c = 0;
    if (x.is_app() && x.decl().decl_kind() == Z3_OP_BADD && x.num_args() == 2) {
        u128 v;
        if (numeral(x.arg(0), v)) { base = x.arg(1); c = v; return; }
        if (numeral(x.arg(1), v)) { base = x.arg(0); c = v; return; }
    }
}
static inline Val vadd(const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.sym && !b.sym) return Val::I(a.c + b.c, w);
    if (!a.sym && a.c == 0) { Val r = b; r.obj = -1; return r; }
    if (!b.sym && b.c == 0) { Val r = a; r.obj = -1; return r; }
    if (!b.sym || !a.sym) {
        const Val& s = a.sym ? a : b;
        const Val& k = a.sym ? b : a;
        z3::expr base(Z);
        u128 c;
        splitAdd(s.e, base, c);
        c = (c + k.c) & maskw(w);
        if (c == 0) return Val::S(base, w);
        return Val::S(bvval(c, w) + base, w);
    }
    return Val::S(a.e + b.e, w);
}
static inline Val vsub(const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.sym && !b.sym) return Val::I(a.c - b.c, w);
    if (!b.sym) return vadd(a, Val::I((u128)0 - b.c, w));
    if (sameTerm(a, b)) return Val::I(0, w);
    return Val::S(T(a) - b.e, w);
}
static inline Val vmul(const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.sym && !b.sym) return Val::I(a.c * b.c, w);
    const Val& s = a.sym ? a : b;
    const Val& k = a.sym ? b : a;
    if (!k.sym) {
        if (k.c == 0) return Val::I(0, w);
        if (k.c == 1) { Val r = s; r.obj = -1; return r; }
    }
    return Val::S(T(a) * T(b), w);
}
static inline Val bnot1(const Val& a) {
    if (!a.sym) return Val::I(!a.c, 1);
    return Val::S((!a.e).simplify(), 1);
}
// x is 0 or 1 according to a condition
static inline bool is01(const Val& x, z3::expr& c) {
    if (!x.sym) { if (x.c > 1) return false; c = Z.bool_val(x.c != 0); return true; }
    if (!x.e.is_app() || x.e.decl().decl_kind() != Z3_OP_ITE) return false;
    u128 t, f;
    if (!numeral(x.e.arg(1), t) || !numeral(x.e.arg(2), f)) return false;
    if (t == 1 && f == 0) { c = x.e.arg(0); return true; }
    if (t == 0 && f == 1) { c = !x.e.arg(0); return true; }
    return false;
}
static inline Val vbin(unsigned op, const Val& a, const Val& b) {
    using llvm::Instruction;
    unsigned w = a.w;
    bool cc = !a.sym && !b.sym;
    if (w == 1 && !cc) {
        z3::expr x = T(a), y = T(b);
        switch (op) {
            case Instruction::And: return Val::S((x && y).simplify(), 1);
            case Instruction::Or: return Val::S((x || y).simplify(), 1);
            case Instruction::Xor:
            case Instruction::Add:
            case Instruction::Sub: return Val::S((x != y).simplify(), 1);
            default: break;
        }
    }
    if (!cc && w > 1 && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) {
        z3::expr x(Z), y(Z);
        if (is01(a, x) && is01(b, y)) {
            z3::expr r = op == Instruction::And ? (x && y) : op == Instruction::Or ? (x || y) : (x != y);
            r = r.simplify();
            if (r.is_true()) return Val::I(1, w);
            if (r.is_false()) return Val::I(0, w);
            return Val::S(z3::ite(r, bvval(1, w), bvval(0, w)), w);
        }
    }
    auto X = [&]() { return TB(a); };
    auto Y = [&]() { return TB(b); };
    auto mk = [&](const z3::expr& e) { return w == 1 ? Val::S((e == Z.bv_val(1, 1)).simplify(), 1) : Val::S(e, w); };
    switch (op) {
        case Instruction::Add: return vadd(a, b);
        case Instruction::Sub: return vsub(a, b);
        case Instruction::Mul: return vmul(a, b);
        case Instruction::UDiv:
            if (cc) return b.c ? Val::I(a.c / b.c, w) : Val::I(0, w);
            if (!b.sym && b.c == 1) return a;
            return mk(z3::udiv(X(), Y()));
        case Instruction::SDiv:
            if (cc) {
                i128 x = sext(a.c, w), y = sext(b.c, w);
                return y ? Val::I((u128)(x / y), w) : Val::I(0, w);
            }
            if (!b.sym && b.c == 1) return a;
            return mk(X() / Y());
        case Instruction::URem:
            if (cc) return b.c ? Val::I(a.c % b.c, w) : Val::I(0, w);
            return mk(z3::urem(X(), Y()));
        case Instruction::SRem:
            if (cc) {
                i128 x = sext(a.c, w), y = sext(b.c, w);
                return y ? Val::I((u128)(x % y), w) : Val::I(0, w);
            }
            return mk(z3::srem(X(), Y()));
        case Instruction::Shl:
            if (cc) return Val::I(b.c >= w ? 0 : a.c << (unsigned)b.c, w);
            if (!b.sym && b.c == 0) return a;
            return mk(z3::shl(X(), Y()));
        case Instruction::LShr:
            if (cc) return Val::I(b.c >= w ? 0 : a.c >> (unsigned)b.c, w);
            if (!b.sym && b.c == 0) return a;
            return mk(z3::lshr(X(), Y()));
        case Instruction::AShr:
            if (cc) return Val::I((u128)(sext(a.c, w) >> (unsigned)(b.c >= w ? w - 1 : b.c)), w);
            if (!b.sym && b.c == 0) return a;
            return mk(z3::ashr(X(), Y()));
        case Instruction::And:
            if (cc) return Val::I(a.c & b.c, w);
            for (int i = 0; i < 2; i++) {
                const Val& s = i ? b : a;
                const Val& k = i ? a : b;
                if (!k.sym) {
                    if (k.c == 0) return Val::I(0, w);
                    if (k.c == maskw(w)) return s;
                }
            }
            return mk(X() & Y());
        case Instruction::Or:
            if (cc) return Val::I(a.c | b.c, w);
            if (!a.sym && a.c == 0) return b;
            if (!b.sym && b.c == 0) return a;
            return mk(X() | Y());
        case Instruction::Xor:
            if (cc) return Val::I(a.c ^ b.c, w);
            if (!a.sym && a.c == 0) return b;
            if (!b.sym && b.c == 0) return a;
            return mk(X() ^ Y());
    }
    throw std::string("bad binop");
}
static inline Val vcmp(llvm::CmpInst::Predicate p, const Val& a, const Val& b) {
    using llvm::CmpInst;
    unsigned w = a.w;
    if (!a.sym && !b.sym) {
        u128 x = a.c, y = b.c;
        i128 sx = sext(x, w), sy = sext(y, w);
        bool r = false;
        switch (p) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            case CmpInst::ICMP_SGE: r = sx >= sy; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
            default: break;
        }
        return Val::I(r, 1);
    }
    if (w == 1) {
        z3::expr x = T(a), y = T(b);
        if (p == CmpInst::ICMP_EQ) return Val::S((x == y).simplify(), 1);
        if (p == CmpInst::ICMP_NE) return Val::S((x != y).simplify(), 1);
    }
    z3::expr x = TB(a), y = TB(b), r(Z);
    switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = z3::ugt(x, y); break;
        case CmpInst::ICMP_UGE: r = z3::uge(x, y); break;
        case CmpInst::ICMP_ULT: r = z3::ult(x, y); break;
        case CmpInst::ICMP_ULE: r = z3::ule(x, y); break;
        case CmpInst::ICMP_SGT: r = x > y; break;
        case CmpInst::ICMP_SGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = x < y; break;
        case CmpInst::ICMP_SLE: r = x <= y; break;
        default: throw std::string("bad icmp");
    }
    return Val::S(r.simplify(), 1);
}
static inline Val vtrunc(const Val& a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym) return Val::I(a.c, w);
    if (w == 1) return Val::S((a.e.extract(0, 0) == Z.bv_val(1, 1)).simplify(), 1);
    auto k = a.e.is_app() ? a.e.decl().decl_kind() : Z3_OP_TRUE;
    if (k == Z3_OP_ZERO_EXT || k == Z3_OP_SIGN_EXT) {
        z3::expr in = a.e.arg(0);
        unsigned iw = in.get_sort().bv_size();
        if (iw == w) return Val::S(in, w);
        if (iw > w) return Val::S(in.extract(w - 1, 0), w);
    }
    if (k == Z3_OP_CONCAT) return Val::S(a.e.extract(w - 1, 0).simplify(), w);
    return Val::S(a.e.extract(w - 1, 0), w);
}
static inline Val vzext(const Val& a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym) return Val::I(a.c, w);
    if (a.w == 1) return Val::S(z3::ite(a.e, bvval(1, w), bvval(0, w)), w);
    return Val::S(z3::zext(a.e, w - a.w), w);
}
static inline Val vsext(const Val& a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym) return Val::I((u128)sext(a.c, a.w), w);
    if (a.w == 1) return Val::S(z3::ite(a.e, bvval(maskw(w), w), bvval(0, w)), w);
    return Val::S(z3::sext(a.e, w - a.w), w);
}
static inline std::shared_ptr<Val> xiOf(const Val& v) {  // exact integer view of a double
    if (v.k != Val::FP || v.w != 64) return nullptr;
    if (v.sym) return v.xi;
    double d = fpC(v);
    if (!(d >= -9007199254740992.0 && d <= 9007199254740992.0) || d != std::floor(d) || (d == 0 && std::signbit(d))) return nullptr;
    return std::make_shared<Val>(Val::I((u128)(i128)(long long)d, 64));
}
static inline Val vite(const Val& c, const Val& a, const Val& b) {  // scalars of same kind/base
    if (!c.sym) return c.c ? a : b;
    if (a.k == b.k && sameTerm(a, b) && a.obj == b.obj) return a;
    Val r;
    if ((a.k == Val::FP || b.k == Val::FP) && a.w == 64 && (a.sym || b.sym)) {
        std::shared_ptr<Val> x = xiOf(a), y = xiOf(b);
        if (x && y) {
            Val q = mkFP(z3::ite(c.e, fpT(a), fpT(b)), a.w);
            q.xi = std::make_shared<Val>(vite(c, *x, *y));
            return q;
        }
    }
    if (a.k == Val::FP || b.k == Val::FP) {
        if (a.sym && a.e.is_bv() && b.sym && b.e.is_bv()) {
            r = Val::S(z3::ite(c.e, a.e, b.e), a.w);
            r.k = Val::FP;
            return r;
        }
        return mkFP(z3::ite(c.e, fpT(a), fpT(b)), a.w);
    }
    if (a.w == 1) return Val::S(z3::ite(c.e, T(a), T(b)).simplify(), 1);
    r = Val::S(z3::ite(c.e, T(a), T(b)), a.w);
    r.obj = a.obj;
    return r;
}
static inline Val vextractByte(const Val& v0, unsigned i) {
    Val v = flat(asInt(v0));
    if (!v.sym) return Val::I(v.c >> (8 * i), 8);
    if (v.w == 8 && i == 0) return v;
    if (v.w == 1) return vzext(v, 8);
    if (v.w < 8 * (i + 1)) {  // odd width
        v = vzext(v, (v.w + 7) / 8 * 8);
        if (!v.sym) return Val::I(v.c >> (8 * i), 8);
    }
    z3::expr e = v.e.extract(8 * i + 7, 8 * i);
    auto k = v.e.is_app() ? v.e.decl().decl_kind() : Z3_OP_TRUE;
    if (k == Z3_OP_CONCAT || k == Z3_OP_ZERO_EXT) e = e.simplify();
    return Val::S(e, 8);
}
static inline Val vconcatBytes(const std::vector<Val>& b) {  // little endian
    unsigned n = b.size();
    bool allc = true;
    for (auto& x : b)
        if (x.sym) allc = false;
    if (allc) {
        u128 v = 0;
        for (unsigned i = n; i-- > 0;) v = (v << 8) | b[i].c;
        return Val::I(v, 8 * n);
    }
    if (n == 1) return b[0];
    z3::expr_vector ev(Z);
    for (unsigned i = n; i-- > 0;) ev.push_back(T(b[i]));
    z3::expr e = z3::concat(ev).simplify();
    return Val::S(e, 8 * n);
}
