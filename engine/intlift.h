// Bit-vector -> integer translation ("int-lift").  Every bit-vector term is represented by an integer term congruent
// to it modulo 2^w together with an interval; it is normalised (fresh quotient) only where signed/unsigned value matters.
// The translation over-approximates (fresh quotients are exact; division by zero is unconstrained), so UNSAT carries over.
#pragma once
#include "val.h"
#include <unordered_map>
#include <unordered_set>

struct LiftFail { std::string why; };

struct Iv {
    i128 lo, hi;
};
static const i128 IINF = ((i128)1 << 126);
static inline i128 clampi(i128 x) { return x > IINF ? IINF : x < -IINF ? -IINF : x; }
static inline i128 satadd(i128 a, i128 b) { return clampi(clampi(a) + clampi(b)); }
static inline i128 satmul(i128 a, i128 b) {
    if (a == 0 || b == 0) return 0;
    i128 r;
    if (a >= IINF || a <= -IINF || b >= IINF || b <= -IINF || __builtin_mul_overflow(a, b, &r)) return ((a < 0) != (b < 0)) ? -IINF : IINF;
    return clampi(r);
}
static inline i128 pow2(unsigned n) { return n >= 126 ? IINF : ((i128)1 << n); }
static inline std::string i128s(i128 v) {
    bool neg = v < 0;
    u128 u = neg ? -(u128)v : (u128)v;
    std::string s;
    if (u == 0) s = "0";
    while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; }
    return neg ? "-" + s : s;
}
static inline i128 floordiv(i128 a, i128 b) {
    i128 q = a / b;
    if ((a % b) != 0 && ((a < 0) != (b < 0))) q--;
    return q;
}

class IntLift {
public:
    struct Lin {
        std::map<int, i128> c;  // atom index -> coefficient
        i128 k = 0;
        bool operator<(const Lin& o) const { return k != o.k ? k < o.k : c < o.c; }
    };
    struct R {
        z3::expr x;
        Iv iv;
        std::shared_ptr<Lin> l;
        R(const z3::expr& e, Iv i, std::shared_ptr<Lin> p = nullptr) : x(e), iv(i), l(p) {}
    };
    std::vector<R> atoms;
    std::unordered_map<unsigned, int> atomOf;
    static const i128 CMAX;
    z3::expr toExpr(const Lin& l) {
        z3::expr_vector v(Z);
        for (auto& p : l.c) {
            if (p.second == 1) v.push_back(atoms[p.first].x);
            else v.push_back(ic(p.second) * atoms[p.first].x);
        }
        if (l.k != 0 || v.empty()) v.push_back(ic(l.k));
        return v.size() == 1 ? v[0] : z3::sum(v);
    }
    Iv ivOf(const Lin& l) {
        Iv r{l.k, l.k};
        for (auto& p : l.c) {
            Iv a = atoms[p.first].iv;
            i128 x = satmul(a.lo, p.second), y = satmul(a.hi, p.second);
            r.lo = satadd(r.lo, std::min(x, y));
            r.hi = satadd(r.hi, std::max(x, y));
        }
        return r;
    }
    static Iv meet(Iv a, Iv b) {
        Iv r{std::max(a.lo, b.lo), std::min(a.hi, b.hi)};
        return r.lo <= r.hi ? r : a;
    }
    R atom(const z3::expr& x, Iv iv) {
        auto it = atomOf.find(x.id());
        if (it == atomOf.end()) {
            keep.push_back(x);
            it = atomOf.emplace(x.id(), (int)atoms.size()).first;
            atoms.push_back(R(x, iv));
        }
        else {
            atoms[it->second].iv = meet(atoms[it->second].iv, iv);
        }
        iv = atoms[it->second].iv;
        if (iv.lo == iv.hi && iv.lo > -IINF && iv.hi < IINF) return cst(iv.lo);
        auto l = std::make_shared<Lin>();
        l->c[it->second] = 1;
        return R(x, iv, l);
    }
    R cst(i128 v) {
        auto l = std::make_shared<Lin>();
        l->k = v;
        return R(ic(v), {v, v}, l);
    }
    const Lin& lin(const R& r) {
        if (!r.l) {
            R& m = const_cast<R&>(r);
            if (r.iv.lo == r.iv.hi) m.l = cst(r.iv.lo).l;
            else m.l = atom(r.x, r.iv).l;
        }
        return *r.l;
    }
    R mk(const Lin& l, Iv iv) {
        iv = meet(ivOf(l), iv);
        if (l.c.empty()) return cst(l.k);
        return R(toExpr(l), iv, std::make_shared<Lin>(l));
    }
    static bool big(i128 v) { return v > CMAX || v < -CMAX; }
    R add(const R& a, const R& b, int sgn = 1) {  // a + sgn*b
        Iv iv = sgn > 0 ? Iv{satadd(a.iv.lo, b.iv.lo), satadd(a.iv.hi, b.iv.hi)} : Iv{satadd(a.iv.lo, -b.iv.hi), satadd(a.iv.hi, -b.iv.lo)};
        Lin l = lin(a);
        const Lin& m = lin(b);
        l.k += sgn * m.k;
        bool ok = !big(l.k);
        for (auto& p : m.c) {
            i128& c = l.c[p.first];
            c += sgn * p.second;
            if (big(c)) ok = false;
            if (c == 0) l.c.erase(p.first);
        }
        if (!ok) return atom(sgn > 0 ? a.x + b.x : a.x - b.x, iv);
        return mk(l, iv);
    }
    R scale(const R& a, i128 c) {
        if (c == 0) return cst(0);
        i128 x = satmul(a.iv.lo, c), y = satmul(a.iv.hi, c);
        Iv iv{std::min(x, y), std::max(x, y)};
        Lin l = lin(a);
        bool ok = true;
        l.k = satmul(l.k, c);
        if (big(l.k)) ok = false;
        for (auto& p : l.c) {
            p.second = satmul(p.second, c);
            if (big(p.second)) ok = false;
        }
        if (!ok) return atom(a.x * ic(c), iv);
        return mk(l, iv);
    }
    R mul(const R& a, const R& b) {
        const Lin &la = lin(a), &lb = lin(b);
        if (la.c.empty()) return scale(b, la.k);
        if (lb.c.empty()) return scale(a, lb.k);
        nonlinear = true;
        i128 p[4] = {satmul(a.iv.lo, b.iv.lo), satmul(a.iv.lo, b.iv.hi), satmul(a.iv.hi, b.iv.lo), satmul(a.iv.hi, b.iv.hi)};
        Iv iv{std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), std::max(std::max(p[0], p[1]), std::max(p[2], p[3]))};
        // distribute over sums: products of atoms, canonically ordered
        if (la.c.size() * lb.c.size() <= 16) {
            R acc = cst(0);
            bool ok = true;
            Lin out;
            auto addc = [&](const R& t, i128 c) {
                const Lin& tl = lin(t);
                for (auto& q : tl.c) {
                    i128& z = out.c[q.first];
                    z += satmul(q.second, c);
                    if (big(z)) ok = false;
                    if (z == 0) out.c.erase(q.first);
                }
                out.k += satmul(tl.k, c);
                if (big(out.k)) ok = false;
            };
            for (auto& i : la.c)
                for (auto& j : lb.c) {
                    int u = std::min(i.first, j.first), v = std::max(i.first, j.first);
                    R A = atoms[u], B = atoms[v];
                    i128 q[4] = {satmul(A.iv.lo, B.iv.lo), satmul(A.iv.lo, B.iv.hi), satmul(A.iv.hi, B.iv.lo), satmul(A.iv.hi, B.iv.hi)};
                    Iv piv{std::min(std::min(q[0], q[1]), std::min(q[2], q[3])), std::max(std::max(q[0], q[1]), std::max(q[2], q[3]))};
                    if (u == v && piv.lo < 0) piv.lo = 0;
                    addc(atom(A.x * B.x, piv), satmul(i.second, j.second));
                }
            for (auto& i : la.c) { Lin t; t.c[i.first] = 1; addc(mk(t, {-IINF, IINF}), satmul(i.second, lb.k)); }
            for (auto& j : lb.c) { Lin t; t.c[j.first] = 1; addc(mk(t, {-IINF, IINF}), satmul(j.second, la.k)); }
            out.k += satmul(la.k, lb.k);
            if (big(out.k)) ok = false;
            if (ok) return mk(out, iv);
        }
        return atom(a.x * b.x, iv);
    }
    // comparison of a - b with 0, decided by intervals when possible
    z3::expr cmp(const R& a, const R& b, int op) {  // 0: a<=b  1: a<b  2: a==b
        R d = add(a, b, -1);
        if (op == 0) {
            if (d.iv.hi <= 0) return Z.bool_val(true);
            if (d.iv.lo > 0) return Z.bool_val(false);
            return a.x <= b.x;
        }
        if (op == 1) {
            if (d.iv.hi < 0) return Z.bool_val(true);
            if (d.iv.lo >= 0) return Z.bool_val(false);
            return a.x < b.x;
        }
        if (d.iv.lo > 0 || d.iv.hi < 0) return Z.bool_val(false);
        if (d.iv.lo == 0 && d.iv.hi == 0) return Z.bool_val(true);
        return a.x == b.x;
    }
    std::vector<z3::expr> side;  // side constraints
    std::unordered_map<unsigned, std::pair<z3::expr, z3::expr>> leaves;  // ast id -> (bv leaf, int var)
    std::unordered_map<unsigned, R> memo;
    std::unordered_map<unsigned, z3::expr> bmemo;
    std::unordered_map<unsigned, Iv> sfact, ufact;
    std::map<std::pair<unsigned, bool>, R> normMemo;
    std::vector<z3::expr> keep;
    int fresh = 0;
    bool nonlinear = false;

    z3::expr ic(i128 v) { return Z.int_val(i128s(v).c_str()); }
    z3::expr freshInt(const char* p) {
        std::string n = std::string("il_") + p + std::to_string(fresh++);
        return Z.int_const(n.c_str());
    }
    void bound(const z3::expr& x, Iv iv) {
        if (iv.lo > -IINF) side.push_back(x >= ic(iv.lo));
        if (iv.hi < IINF) side.push_back(x <= ic(iv.hi));
    }
    Iv sr(unsigned w) { return {-pow2(w - 1), pow2(w - 1) - 1}; }
    Iv ur(unsigned w) { return {0, pow2(w) - 1}; }
    static bool within(Iv a, Iv b) { return a.lo >= b.lo && a.hi <= b.hi; }

    static bool num(const z3::expr& e, u128& v) { return numeral(e, v); }

    void narrow(std::unordered_map<unsigned, Iv>& m, const z3::expr& e, Iv iv) {
        unsigned id = e.id();
        keep.push_back(e);
        auto it = m.find(id);
        if (it == m.end()) m[id] = iv;
        else {
            if (iv.lo > it->second.lo) it->second.lo = iv.lo;
            if (iv.hi < it->second.hi) it->second.hi = iv.hi;
        }
    }
    // the simplifier writes x <= c as: the high bits of x are 0, and the low ones <= c
    void whole(const z3::expr& e, i128 hi) {
        if (!e.is_app() || e.decl().decl_kind() != Z3_OP_EXTRACT || hi < 0) return;
        z3::expr x = e.arg(0);
        unsigned w = x.get_sort().bv_size(), h = e.hi(), l = e.lo();
        if (w > 120) return;
        if (h == w - 1 && l > 0) narrow(ufact, x, {0, (hi + 1) * pow2(l) - 1});
        else if (l == 0) {
            auto it = ufact.find(x.id());
            if (it != ufact.end() && it->second.hi < pow2(h + 1)) narrow(ufact, x, {0, hi});
        }
    }
    void fact(const z3::expr& f, bool pos) {
        if (!f.is_app()) return;
        auto k = f.decl().decl_kind();
        if (k == Z3_OP_NOT) return fact(f.arg(0), !pos);
        if (k == Z3_OP_AND && pos) {
            for (unsigned i = 0; i < f.num_args(); i++) fact(f.arg(i), true);
            return;
        }
        if (k == Z3_OP_OR && !pos) {
            for (unsigned i = 0; i < f.num_args(); i++) fact(f.arg(i), false);
            return;
        }
        if (f.num_args() != 2 || !f.arg(0).is_bv()) return;
        unsigned w = f.arg(0).get_sort().bv_size();
        if (w > 120) return;
        z3::expr a = f.arg(0), b = f.arg(1);
        u128 v;
        auto le = [&](bool sg, const z3::expr& x, const z3::expr& y, int strict) {  // x <= y (strict: x<y)
            auto& m = sg ? sfact : ufact;
            Iv full = sg ? sr(w) : ur(w);
            if (num(y, v)) {
                narrow(m, x, {full.lo, (sg ? sext(v, w) : (i128)v) - strict});
                if (!sg) whole(x, (i128)v - strict);
            }
            if (num(x, v)) narrow(m, y, {(sg ? sext(v, w) : (i128)v) + strict, full.hi});
        };
        switch (k) {
            case Z3_OP_ULEQ: pos ? le(false, a, b, 0) : le(false, b, a, 1); break;
            case Z3_OP_ULT: pos ? le(false, a, b, 1) : le(false, b, a, 0); break;
            case Z3_OP_UGEQ: pos ? le(false, b, a, 0) : le(false, a, b, 1); break;
            case Z3_OP_UGT: pos ? le(false, b, a, 1) : le(false, a, b, 0); break;
            case Z3_OP_SLEQ: pos ? le(true, a, b, 0) : le(true, b, a, 1); break;
            case Z3_OP_SLT: pos ? le(true, a, b, 1) : le(true, b, a, 0); break;
            case Z3_OP_SGEQ: pos ? le(true, b, a, 0) : le(true, a, b, 1); break;
            case Z3_OP_SGT: pos ? le(true, b, a, 1) : le(true, a, b, 0); break;
            case Z3_OP_EQ:
                if (pos) { le(false, a, b, 0); le(false, b, a, 0); le(true, a, b, 0); le(true, b, a, 0); }
                break;
            default: break;
        }
    }

    R leaf(const z3::expr& e, const z3::expr& var) {
        unsigned w = e.get_sort().bv_size();
        auto s = sfact.find(e.id());
        auto u = ufact.find(e.id());
        Iv iv;
        if (e.num_args() > 0) {  // function application: one fixed (unsigned) representation for every instance
            iv = ur(w);
            if (u != ufact.end()) iv = {std::max(iv.lo, u->second.lo), std::min(iv.hi, u->second.hi)};
            if (s != sfact.end() && s->second.lo >= 0) iv = {std::max(iv.lo, s->second.lo), std::min(iv.hi, s->second.hi)};
            bound(var, iv);
            leaves.emplace(e.id(), std::make_pair(e, var));
            return atom(var, iv);
        }
        if (s != sfact.end() && u != ufact.end()) {
            // both: if the signed range is non-negative it is also the unsigned one
            if (s->second.lo >= 0) iv = {std::max(s->second.lo, u->second.lo), std::min(s->second.hi, u->second.hi)};
            else if (u->second.hi < pow2(w - 1)) iv = {std::max(u->second.lo, s->second.lo), std::min(s->second.hi, u->second.hi)};
            else iv = s->second;
        }
        else if (s != sfact.end()) iv = s->second;
        else if (u != ufact.end()) iv = u->second;
        else iv = (w <= 16) ? ur(w) : sr(w);
        bound(var, iv);
        leaves.emplace(e.id(), std::make_pair(e, var));
        return atom(var, iv);
    }
    R norm(const R& r, unsigned w, bool sg, unsigned id) {
        Iv full = sg ? sr(w) : ur(w);
        if (within(r.iv, full)) return r;
        auto key = std::make_pair(id, sg);
        auto it = normMemo.find(key);
        if (it != normMemo.end()) return it->second;
        i128 M = pow2(w);
        if (w >= 120) throw LiftFail{"wide normalisation"};
        z3::expr n(Z);
        Iv out = full;
        bool finite = r.iv.lo > -IINF && r.iv.hi < IINF;
        if (finite) {
            i128 ql = floordiv(r.iv.lo - full.lo, M), qh = floordiv(r.iv.hi - full.lo, M);
            if (ql == qh) {
                R res = add(r, cst(ql * M), -1);
                (void)n; (void)out;
                normMemo.emplace(key, res);
                return res;
            }
            if (qh - ql <= 2) {
                // case split
                z3::expr e = r.x - ic(qh * M);
                for (i128 q = qh - 1; q >= ql; q--) e = z3::ite(r.x < ic((q + 1) * M + full.lo), r.x - ic(q * M), e);
                n = freshInt("n");
                side.push_back(n == e);
                bound(n, full);
                R res{n, out};
                normMemo.emplace(key, res);
                return res;
            }
        }
        z3::expr q = freshInt("q");
        n = freshInt("n");
        side.push_back(r.x == n + q * ic(M));
        bound(n, full);
        if (finite) bound(q, {floordiv(r.iv.lo - full.lo, M), floordiv(r.iv.hi - full.lo, M)});
        R res{n, out};
        normMemo.emplace(key, res);
        return res;
    }
    R S(const z3::expr& e) { return norm(tr(e), e.get_sort().bv_size(), true, e.id()); }
    R U(const z3::expr& e) { return norm(tr(e), e.get_sort().bv_size(), false, e.id()); }

    std::map<std::pair<Lin, i128>, R> divcMemo;
    R divc(const R& a, i128 c) {  // floor division by constant c>0 (a arbitrary sign)
        Iv iv{a.iv.lo <= -IINF ? -IINF : floordiv(a.iv.lo, c), a.iv.hi >= IINF ? IINF : floordiv(a.iv.hi, c)};
        if (iv.lo == iv.hi && iv.lo > -IINF && iv.hi < IINF) return cst(iv.lo);
        // a = c*Q + rest, with small remainders
        Lin l = lin(a), Q, rest;
        for (auto& p : l.c) {
            i128 q = floordiv(p.second, c), r = p.second - q * c;
            if (r > c - r) { q++; r -= c; }
            if (q) Q.c[p.first] = q;
            if (r) rest.c[p.first] = r;
        }
        rest.k = 0;
        Iv ri = ivOf(rest);
        i128 qk = (ri.lo > -IINF) ? floordiv(satadd(ri.lo, l.k), c) : floordiv(l.k, c);
        Q.k = qk;
        rest.k = l.k - qk * c;
        ri = ivOf(rest);
        // the residue inherits the interval of a when nothing was split off
        if (Q.c.empty()) ri = meet(ri, {satadd(a.iv.lo, -qk * c), satadd(a.iv.hi, -qk * c)});
        if (ri.lo >= 0 && ri.hi < c) return mk(Q, iv);
        // common factor with c
        i128 g = c;
        for (auto& p : rest.c) {
            i128 x = p.second < 0 ? -p.second : p.second, y = g;
            while (x) { i128 t = y % x; y = x; x = t; }
            g = y;
        }
        i128 cc = c;
        if (g > 1) {
            for (auto& p : rest.c) p.second /= g;
            rest.k = floordiv(rest.k, g);
            cc = c / g;
            ri = {ri.lo <= -IINF ? ri.lo : floordiv(ri.lo, g), ri.hi >= IINF ? ri.hi : floordiv(ri.hi, g)};
            if (cc == 1) {
                R x = mk(rest, ri);
                return add(mk(Q, {-IINF, IINF}), x);
            }
        }
        auto key = std::make_pair(rest, cc);
        auto it = divcMemo.find(key);
        if (it == divcMemo.end()) {
            z3::expr q = freshInt("d");
            z3::expr r = freshInt("m");
            side.push_back(toExpr(rest) == q * ic(cc) + r);
            side.push_back(r >= 0);
            side.push_back(r <= ic(cc - 1));
            Iv qi{ri.lo <= -IINF ? -IINF : floordiv(ri.lo, cc), ri.hi >= IINF ? IINF : floordiv(ri.hi, cc)};
            bound(q, qi);
            it = divcMemo.emplace(key, atom(q, qi)).first;
        }
        R res = add(mk(Q, {-IINF, IINF}), it->second);
        res.iv = meet(res.iv, iv);
        return res;
    }
    std::map<std::pair<Lin, Lin>, std::pair<R, R>> nndMemo;
    R nonneg_div(const R& a, const R& b, R* rem) {  // a>=0, b>=0 (nothing known when b = 0)
        nonlinear = true;
        auto key = std::make_pair(lin(a), lin(b));
        auto it = nndMemo.find(key);
        if (it == nndMemo.end()) {
            z3::expr q = freshInt("d"), r = freshInt("m");
            bool pos = b.iv.lo > 0;
            Iv qi{0, a.iv.hi >= IINF ? IINF : pos && b.iv.lo < IINF ? a.iv.hi / b.iv.lo : a.iv.hi}, ri{0, std::min(a.iv.hi, satadd(b.iv.hi, -1))};
            if (!pos) {
                side.push_back(z3::implies(b.x > 0, a.x == q * b.x + r && r >= 0 && r < b.x && q >= 0 && q <= a.x));
                // with b = 0 the values are unconstrained inside these bounds (the path is undefined anyway)
                bound(q, qi);
                bound(r, {0, a.iv.hi});
                it = nndMemo.emplace(key, std::make_pair(atom(q, qi), atom(r, Iv{0, a.iv.hi}))).first;
            }
            else {
                R qa = atom(q, qi), ra = atom(r, ri);
                bound(q, qi);
                bound(r, ri);
                R prod = mul(qa, b);
                tighten(prod, {0, a.iv.hi});
                side.push_back(a.x == prod.x + r);
                side.push_back(r < b.x);
                side.push_back(prod.x >= 0);
                side.push_back(prod.x <= a.x);
                it = nndMemo.emplace(key, std::make_pair(qa, ra)).first;
            }
        }
        if (rem) *rem = it->second.second;
        return it->second.first;
    }
    void tighten(const R& p, Iv iv) {
        const Lin& l = lin(p);
        if (l.c.size() == 1 && l.k == 0 && l.c.begin()->second == 1) {
            R& at = atoms[l.c.begin()->first];
            at.iv = meet(at.iv, iv);
        }
    }
    std::unordered_map<unsigned, std::pair<R, R>> divMemo;

    R tr(const z3::expr& e) {
        auto it = memo.find(e.id());
        if (it != memo.end()) return it->second;
        R r = tr0(e);
        keep.push_back(e);
        memo.emplace(e.id(), r);
        return r;
    }
    R tr0(const z3::expr& e) {
        unsigned w = e.get_sort().bv_size();
        u128 v;
        if (num(e, v)) {
            // choose the representative closest to zero
            i128 s = w <= 126 ? sext(v, w) : (i128)v;
            return {ic(s), {s, s}};
        }
        if (!e.is_app()) throw LiftFail{"non-app"};
        auto k = e.decl().decl_kind();
        unsigned n = e.num_args();
        switch (k) {
            case Z3_OP_UNINTERPRETED: {
                if (n == 0) return leaf(e, Z.int_const(("il!" + e.decl().name().str()).c_str()));
                z3::sort_vector dom(Z);
                z3::expr_vector args(Z);
                for (unsigned i = 0; i < n; i++) {
                    if (!e.arg(i).is_bv()) throw LiftFail{"uf arg"};
                    dom.push_back(Z.int_sort());
                    args.push_back(U(e.arg(i)).x);
                }
                z3::func_decl f = Z.function(("il!" + e.decl().name().str()).c_str(), dom, Z.int_sort());
                return leaf(e, f(args));
            }
            case Z3_OP_BADD: {
                R a = tr(e.arg(0));
                for (unsigned i = 1; i < n; i++) {
                    R b = tr(e.arg(i));
                    a = add(a, b);
                }
                return shrink(a, w, e);
            }
            case Z3_OP_BSUB: {
                R a = tr(e.arg(0));
                for (unsigned i = 1; i < n; i++) {
                    R b = tr(e.arg(i));
                    a = add(a, b, -1);
                }
                return shrink(a, w, e);
            }
            case Z3_OP_BNEG: {
                return scale(tr(e.arg(0)), -1);
            }
            case Z3_OP_BNOT: {
                return add(cst(-1), tr(e.arg(0)), -1);
            }
            case Z3_OP_BMUL: {
                R a = tr(e.arg(0));
                for (unsigned i = 1; i < n; i++) {
                    R b = tr(e.arg(i));
                    a = mul(a, b);
                }
                return shrink(a, w, e);
            }
            case Z3_OP_BSHL: {
                if (!num(e.arg(1), v)) throw LiftFail{"shl by symbolic"};
                if (v >= w) return {ic(0), {0, 0}};
                R a = tr(e.arg(0));
                i128 c = pow2((unsigned)v);
                return shrink(scale(a, c), w, e);
            }
            case Z3_OP_BLSHR: {
                if (!num(e.arg(1), v)) throw LiftFail{"lshr by symbolic"};
                if (v >= w) return {ic(0), {0, 0}};
                return divc(U(e.arg(0)), pow2((unsigned)v));
            }
            case Z3_OP_BASHR: {
                if (!num(e.arg(1), v)) throw LiftFail{"ashr by symbolic"};
                if (v >= w) v = w - 1;
                return divc(S(e.arg(0)), pow2((unsigned)v));
            }
            case Z3_OP_BUDIV:
            case Z3_OP_BUDIV_I: {
                R a = U(e.arg(0));
                if (num(e.arg(1), v) && v != 0) return divc(a, (i128)v);
                return nonneg_div(a, U(e.arg(1)), nullptr);
            }
            case Z3_OP_BUREM:
            case Z3_OP_BUREM_I: {
                R a = U(e.arg(0));
                if (num(e.arg(1), v) && v != 0) {
                    if (a.iv.lo >= 0 && a.iv.hi < (i128)v) return a;
                    R q = divc(a, (i128)v);
                    R rr = add(a, scale(q, (i128)v), -1);
                    rr.iv = meet({0, (i128)v - 1}, rr.iv);
                    return rr;
                }
                R rem{Z.int_val(0), {0, 0}};
                nonneg_div(a, U(e.arg(1)), &rem);
                return rem;
            }
            case Z3_OP_BSDIV:
            case Z3_OP_BSDIV_I:
            case Z3_OP_BSREM:
            case Z3_OP_BSREM_I: {
                bool isdiv = k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I;
                return sdivrem(e.arg(0), e.arg(1), isdiv);
            }
            case Z3_OP_BSMOD:
            case Z3_OP_BSMOD_I: throw LiftFail{"smod"};
            case Z3_OP_SIGN_EXT: return S(e.arg(0));
            case Z3_OP_ZERO_EXT: return U(e.arg(0));
            case Z3_OP_CONCAT: {
                R acc = U(e.arg(0));
                for (unsigned i = 1; i < n; i++) {
                    unsigned wi = e.arg(i).get_sort().bv_size();
                    R b = U(e.arg(i));
                    i128 c = pow2(wi);
                    acc = add(scale(acc, c), b);
                }
                return acc;
            }
            case Z3_OP_EXTRACT: {
                unsigned hi = e.hi(), lo = e.lo();
                if (lo == 0) {
                    // congruent mod 2^(hi+1): keep the representative
                    R a = tr(e.arg(0));
                    return shrink(a, hi + 1, e);
                }
                R a = U(e.arg(0));
                R q = divc(a, pow2(lo));
                return shrink(q, hi - lo + 1, e);
            }
            case Z3_OP_ITE: {
                z3::expr c = B(e.arg(0));
                R a = tr(e.arg(1)), b = tr(e.arg(2));
                if (c.is_true()) return a;
                if (c.is_false()) return b;
                // common linear part outside
                Lin common, la = lin(a), lb = lin(b);
                for (auto& p : la.c) {
                    auto it2 = lb.c.find(p.first);
                    if (it2 != lb.c.end() && it2->second == p.second) common.c[p.first] = p.second;
                }
                for (auto& p : common.c) { la.c.erase(p.first); lb.c.erase(p.first); }
                Iv iv{std::min(a.iv.lo, b.iv.lo), std::max(a.iv.hi, b.iv.hi)};
                R ra = mk(la, common.c.empty() ? a.iv : Iv{-IINF, IINF}), rb = mk(lb, common.c.empty() ? b.iv : Iv{-IINF, IINF});
                if (la.c.empty() && lb.c.empty() && la.k == lb.k) { common.k = la.k; return mk(common, iv); }
                Iv iv2{std::min(ra.iv.lo, rb.iv.lo), std::max(ra.iv.hi, rb.iv.hi)};
                R t = atom(z3::ite(c, ra.x, rb.x), iv2);
                return common.c.empty() ? t : add(mk(common, {-IINF, IINF}), t);
            }
            case Z3_OP_BAND: {
                if (n == 2) {
                    for (int i = 0; i < 2; i++)
                        if (num(e.arg(i), v)) {
                            z3::expr o = e.arg(1 - i);
                            if (((v + 1) & v) == 0) {  // low mask
                                unsigned kbits = 0;
                                while (v >> kbits) kbits++;
                                R a = U(o);
                                if (a.iv.hi <= (i128)v) return a;
                                R q = divc(a, pow2(kbits));
                                R rr = add(a, scale(q, pow2(kbits)), -1);
                                rr.iv = meet({0, (i128)v}, rr.iv);
                                return rr;
                            }
                            u128 nv = ~v & maskw(w);
                            if (((nv + 1) & nv) == 0) {  // clear low bits
                                unsigned kbits = 0;
                                while (nv >> kbits) kbits++;
                                R q = divc(U(o), pow2(kbits));
                                return scale(q, pow2(kbits));
                            }
                        }
                }
                throw LiftFail{"bvand"};
            }
            case Z3_OP_BOR: {
                throw LiftFail{"bvor"};
            }
            case Z3_OP_FPA_TO_SBV:
            case Z3_OP_FPA_TO_UBV:
            case Z3_OP_FPA_TO_IEEE_BV: return leaf(e, Z.int_const(("fpi!" + std::to_string(e.id())).c_str()));   // opaque
            default: throw LiftFail{"op " + e.decl().name().str()};
        }
    }
    R shrink(const R& r, unsigned w, const z3::expr& e) {
        // keep huge representatives bounded; also use asserted facts when they pin the representative
        if (r.iv.lo <= -IINF || r.iv.hi >= IINF) {
            return r;
        }
        if (within(r.iv, sr(w))) {
            auto s = sfact.find(e.id());
            if (s != sfact.end()) { Iv ni = meet(r.iv, s->second); if (ni.lo > r.iv.lo || ni.hi < r.iv.hi) bound(r.x, ni); return R(r.x, ni, r.l); }
        }
        if (within(r.iv, ur(w))) {
            auto s = ufact.find(e.id());
            if (s != ufact.end()) { Iv ni = meet(r.iv, s->second); if (ni.lo > r.iv.lo || ni.hi < r.iv.hi) bound(r.x, ni); return R(r.x, ni, r.l); }
        }
        return r;
    }
    R sdivrem(const z3::expr& ea, const z3::expr& eb, bool isdiv) {
        R a = S(ea);
        u128 v;
        unsigned w = ea.get_sort().bv_size();
        if (num(eb, v) && sext(v, w) != 0) {
            i128 c = sext(v, w);
            i128 ac = c < 0 ? -c : c;
            // |a| div |c| with truncation
            R q{Z.int_val(0), {0, 0}};
            if (a.iv.lo >= 0) q = divc(a, ac);
            else {
                auto key = ea.id();
                (void)key;
                z3::expr abs = freshInt("a");
                i128 mx = std::max(a.iv.hi < 0 ? -a.iv.hi : a.iv.hi, -a.iv.lo);
                side.push_back(abs == z3::ite(a.x >= 0, a.x, -a.x));
                bound(abs, {0, mx});
                R qa = divc({abs, {0, mx}}, ac);
                z3::expr s = freshInt("t");
                side.push_back(s == z3::ite(a.x >= 0, qa.x, -qa.x));
                i128 l = a.iv.lo < 0 ? -((-a.iv.lo) / ac) : 0, h = a.iv.hi > 0 ? a.iv.hi / ac : 0;
                bound(s, {l, h});
                q = atom(s, {l, h});
            }
            if (isdiv) {
                if (c < 0) return scale(q, -1);
                return q;
            }
            Iv iv{a.iv.lo < 0 ? -(ac - 1) : 0, a.iv.hi > 0 ? ac - 1 : 0};
            iv.lo = std::max(iv.lo, std::min<i128>(a.iv.lo, 0));
            iv.hi = std::min(iv.hi, std::max<i128>(a.iv.hi, 0));
            R rr = add(a, scale(q, ac), -1);
            rr.iv = meet(iv, rr.iv);
            return rr;
        }
        R b = S(eb);
        nonlinear = true;
        // memo on (ea,eb)
        static unsigned dummy;
        (void)dummy;
        auto key = std::make_pair(ea.id(), eb.id());
        auto it = sdm.find(key);
        if (it == sdm.end()) {
            z3::expr q = freshInt("d"), r = freshInt("m");
            z3::expr absb = z3::ite(b.x >= 0, b.x, -b.x);
            bool pos = b.iv.lo > 0 || b.iv.hi < 0;
            i128 mx0 = std::max(a.iv.hi < 0 ? -a.iv.hi : a.iv.hi, a.iv.lo < 0 ? -a.iv.lo : a.iv.lo);
            i128 mb0 = std::max(b.iv.hi < 0 ? -b.iv.hi : b.iv.hi, b.iv.lo < 0 ? -b.iv.lo : b.iv.lo);
            Iv qv{-mx0, mx0}, rv{a.iv.lo >= 0 ? 0 : -(mb0 - 1), a.iv.hi <= 0 ? 0 : mb0 - 1};
            if (a.iv.lo >= 0 && b.iv.lo > 0) { qv = {0, a.iv.hi / b.iv.lo}; rv.hi = std::min(rv.hi, a.iv.hi); }
            R qa = pos ? atom(q, qv) : R(q, {-IINF, IINF}), ra = pos ? atom(r, rv) : R(r, {-IINF, IINF});
            R prodR = mul(qa, b);
            z3::expr prod = prodR.x;
            if (pos && a.iv.lo >= 0 && b.iv.lo > 0) tighten(prodR, {0, a.iv.hi});
            if (pos && a.iv.lo >= 0) { bound(q, qv); bound(r, rv); side.push_back(prod >= 0); side.push_back(prod <= a.x); }
            side.push_back(z3::implies(b.x != 0, a.x == prod + r));
            side.push_back(z3::implies(b.x != 0 && a.x >= 0, r >= 0 && r < absb));
            side.push_back(z3::implies(b.x != 0 && a.x < 0, r <= 0 && -r < absb));
            i128 mx = std::max(a.iv.hi < 0 ? -a.iv.hi : a.iv.hi, a.iv.lo < 0 ? -a.iv.lo : a.iv.lo);
            Iv qi{-mx, mx};
            if (a.iv.lo >= 0 && b.iv.lo > 0) qi = {0, a.iv.hi / std::max<i128>(b.iv.lo, 1)};
            i128 mb = std::max(b.iv.hi < 0 ? -b.iv.hi : b.iv.hi, b.iv.lo < 0 ? -b.iv.lo : b.iv.lo);
            Iv ri{a.iv.lo >= 0 ? 0 : -(mb - 1), a.iv.hi <= 0 ? 0 : mb - 1};
            side.push_back(z3::implies(b.x != 0, q >= ic(qi.lo) && q <= ic(qi.hi)));
            it = sdm.emplace(key, std::make_pair(R{q, qi}, R{r, ri})).first;
        }
        return isdiv ? it->second.first : it->second.second;
    }
    std::map<std::pair<unsigned, unsigned>, std::pair<R, R>> sdm;

    z3::expr B(const z3::expr& e) {
        auto it = bmemo.find(e.id());
        if (it != bmemo.end()) return it->second;
        z3::expr r = B0(e);
        keep.push_back(e);
        bmemo.emplace(e.id(), r);
        return r;
    }
    z3::expr B0(const z3::expr& e) {
        if (!e.is_app()) throw LiftFail{"quantifier"};
        auto k = e.decl().decl_kind();
        unsigned n = e.num_args();
        switch (k) {
            case Z3_OP_TRUE:
            case Z3_OP_FALSE: return e;
            case Z3_OP_NOT: return !B(e.arg(0));
            case Z3_OP_AND: {
                z3::expr_vector v(Z);
                for (unsigned i = 0; i < n; i++) v.push_back(B(e.arg(i)));
                return z3::mk_and(v);
            }
            case Z3_OP_OR: {
                z3::expr_vector v(Z);
                for (unsigned i = 0; i < n; i++) v.push_back(B(e.arg(i)));
                return z3::mk_or(v);
            }
            case Z3_OP_XOR: return B(e.arg(0)) != B(e.arg(1));
            case Z3_OP_IMPLIES: return z3::implies(B(e.arg(0)), B(e.arg(1)));
            case Z3_OP_ITE: return z3::ite(B(e.arg(0)), B(e.arg(1)), B(e.arg(2)));
            case Z3_OP_UNINTERPRETED:
                if (n == 0) return e;
                throw LiftFail{"bool uf"};
            case Z3_OP_EQ:
            case Z3_OP_IFF:
                if (e.arg(0).is_bool()) return B(e.arg(0)) == B(e.arg(1));
                if (e.arg(0).is_fpa()) return Z.bool_const(("fpb!" + std::to_string(e.id())).c_str());
                if (!e.arg(0).is_bv()) throw LiftFail{"eq sort"};
                return eq(e.arg(0), e.arg(1));
            case Z3_OP_DISTINCT:
                if (n == 2 && e.arg(0).is_bv()) return !eq(e.arg(0), e.arg(1));
                throw LiftFail{"distinct"};
            case Z3_OP_ULEQ: return cmp(U(e.arg(0)), U(e.arg(1)), 0);
            case Z3_OP_ULT: return cmp(U(e.arg(0)), U(e.arg(1)), 1);
            case Z3_OP_UGEQ: return cmp(U(e.arg(1)), U(e.arg(0)), 0);
            case Z3_OP_UGT: return cmp(U(e.arg(1)), U(e.arg(0)), 1);
            case Z3_OP_SLEQ: return cmp(S(e.arg(0)), S(e.arg(1)), 0);
            case Z3_OP_SLT: return cmp(S(e.arg(0)), S(e.arg(1)), 1);
            case Z3_OP_SGEQ: return cmp(S(e.arg(1)), S(e.arg(0)), 0);
            case Z3_OP_SGT: return cmp(S(e.arg(1)), S(e.arg(0)), 1);
            case Z3_OP_BSMUL_NO_OVFL: {
                unsigned w = e.arg(0).get_sort().bv_size();
                R a = S(e.arg(0)), b = S(e.arg(1));
                return cmp(mul(a, b), cst(sr(w).hi), 0);
            }
            case Z3_OP_BSMUL_NO_UDFL: {
                unsigned w = e.arg(0).get_sort().bv_size();
                R a = S(e.arg(0)), b = S(e.arg(1));
                return cmp(cst(sr(w).lo), mul(a, b), 0);
            }
            case Z3_OP_BUMUL_NO_OVFL: {
                unsigned w = e.arg(0).get_sort().bv_size();
                R a = U(e.arg(0)), b = U(e.arg(1));
                return cmp(mul(a, b), cst(ur(w).hi), 0);
            }
            case Z3_OP_FPA_LT:
            case Z3_OP_FPA_LE:
            case Z3_OP_FPA_GT:
            case Z3_OP_FPA_GE:
            case Z3_OP_FPA_EQ:
            case Z3_OP_FPA_IS_NAN:
            case Z3_OP_FPA_IS_INF:
            case Z3_OP_FPA_IS_ZERO:
            case Z3_OP_FPA_IS_NEGATIVE: return Z.bool_const(("fpb!" + std::to_string(e.id())).c_str());   // opaque (any truth value)
            default: throw LiftFail{"bool op " + e.decl().name().str()};
        }
    }
    z3::expr eq(const z3::expr& a, const z3::expr& b) {
        unsigned w = a.get_sort().bv_size();
        R x = tr(a), y = tr(b);
        Iv d{satadd(x.iv.lo, -y.iv.hi), satadd(x.iv.hi, -y.iv.lo)};
        i128 M = pow2(w);
        if (d.lo > -M && d.hi < M) return cmp(x, y, 2);
        // both in the same canonical range?
        R xs = S(a), ys = S(b);
        return cmp(xs, ys, 2);
    }
};

const i128 IntLift::CMAX = ((i128)1 << 100);
