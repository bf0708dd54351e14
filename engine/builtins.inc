// included inside class Engine
    // ---- floating point ------------------------------------------------------------------------------------------
    Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
        if (!a.sym && !b.sym) {
            double x = fpC(a), y = fpC(b);
            bool un = std::isnan(x) || std::isnan(y);
            bool r = false;
            switch (p) {
                case CmpInst::FCMP_FALSE: r = false; break;
                case CmpInst::FCMP_TRUE: r = true; break;
                case CmpInst::FCMP_OEQ: r = !un && x == y; break;
                case CmpInst::FCMP_OGT: r = !un && x > y; break;
                case CmpInst::FCMP_OGE: r = !un && x >= y; break;
                case CmpInst::FCMP_OLT: r = !un && x < y; break;
                case CmpInst::FCMP_OLE: r = !un && x <= y; break;
                case CmpInst::FCMP_ONE: r = !un && x != y; break;
                case CmpInst::FCMP_ORD: r = !un; break;
                case CmpInst::FCMP_UNO: r = un; break;
                case CmpInst::FCMP_UEQ: r = un || x == y; break;
                case CmpInst::FCMP_UGT: r = un || x > y; break;
                case CmpInst::FCMP_UGE: r = un || x >= y; break;
                case CmpInst::FCMP_ULT: r = un || x < y; break;
                case CmpInst::FCMP_ULE: r = un || x <= y; break;
                case CmpInst::FCMP_UNE: r = un || x != y; break;
                default: break;
            }
            return Val::I(r, 1);
        }
        {
            std::shared_ptr<Val> xa = xiOf(a), xb = xiOf(b);
            if (a.w == 64 && (xa || xb)) {
                CmpInst::Predicate ip = CmpInst::BAD_ICMP_PREDICATE;
                bool negUn = false;
                switch (p) {
                    case CmpInst::FCMP_UEQ: case CmpInst::FCMP_OEQ: ip = CmpInst::ICMP_EQ; break;
                    case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: ip = CmpInst::ICMP_NE; break;
                    case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGT: ip = CmpInst::ICMP_SGT; break;
                    case CmpInst::FCMP_UGE: case CmpInst::FCMP_OGE: ip = CmpInst::ICMP_SGE; break;
                    case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLT: ip = CmpInst::ICMP_SLT; break;
                    case CmpInst::FCMP_ULE: case CmpInst::FCMP_OLE: ip = CmpInst::ICMP_SLE; break;
                    default: break;
                }
                (void)negUn;
                if (ip != CmpInst::BAD_ICMP_PREDICATE) {
                    if (xa && xb) return vcmp(ip, *xa, *xb);
                    // one side is a concrete double without an exact small integer
                    if (xa && !b.sym && !std::isnan(fpC(b))) {
                        double c = fpC(b);
                        if (c > 9007199254740992.0 || c < -9007199254740992.0) {
                            bool big = c > 0;
                            bool r = ip == CmpInst::ICMP_NE || (big ? (ip == CmpInst::ICMP_SLT || ip == CmpInst::ICMP_SLE) : (ip == CmpInst::ICMP_SGT || ip == CmpInst::ICMP_SGE));
                            return Val::I(r, 1);
                        }
                        if (c == 0) return vcmp(ip, *xa, Val::I(0, 64));
                        double fl = std::floor(c);  // not an integer: x<c <=> x<=floor(c)
                        Val f = Val::I((u128)(i128)(long long)fl, 64);
                        if (ip == CmpInst::ICMP_EQ) return Val::I(0, 1);
                        if (ip == CmpInst::ICMP_NE) return Val::I(1, 1);
                        if (ip == CmpInst::ICMP_SLT || ip == CmpInst::ICMP_SLE) return vcmp(CmpInst::ICMP_SLE, *xa, f);
                        return vcmp(CmpInst::ICMP_SGT, *xa, f);
                    }
                    if (xb && !a.sym && !std::isnan(fpC(a))) return fcmp(CmpInst::getSwappedPredicate(p), b, a);
                }
                else if (p == CmpInst::FCMP_ORD && xa && xb) return Val::I(1, 1);
                else if (p == CmpInst::FCMP_UNO && xa && xb) return Val::I(0, 1);
            }
            if (a.w == 64 && xa && a.sym && sameTerm(a, b)) {
                if (p == CmpInst::FCMP_ORD) return Val::I(1, 1);
                if (p == CmpInst::FCMP_UNO) return Val::I(0, 1);
            }
        }
        z3::expr x = fpT(a), y = fpT(b);
        z3::expr un = z3::expr(Z, Z3_mk_fpa_is_nan(Z, x)) || z3::expr(Z, Z3_mk_fpa_is_nan(Z, y));
        z3::expr eq(Z, Z3_mk_fpa_eq(Z, x, y)), lt(Z, Z3_mk_fpa_lt(Z, x, y)), le(Z, Z3_mk_fpa_leq(Z, x, y)), gt(Z, Z3_mk_fpa_gt(Z, x, y)), ge(Z, Z3_mk_fpa_geq(Z, x, y));
        z3::expr r(Z);
        switch (p) {
            case CmpInst::FCMP_FALSE: r = Z.bool_val(false); break;
            case CmpInst::FCMP_TRUE: r = Z.bool_val(true); break;
            case CmpInst::FCMP_OEQ: r = eq; break;
            case CmpInst::FCMP_OGT: r = gt; break;
            case CmpInst::FCMP_OGE: r = ge; break;
            case CmpInst::FCMP_OLT: r = lt; break;
            case CmpInst::FCMP_OLE: r = le; break;
            case CmpInst::FCMP_ONE: r = lt || gt; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || eq; break;
            case CmpInst::FCMP_UGT: r = !le; break;
            case CmpInst::FCMP_UGE: r = !lt; break;
            case CmpInst::FCMP_ULT: r = !ge; break;
            case CmpInst::FCMP_ULE: r = !gt; break;
            case CmpInst::FCMP_UNE: r = !eq; break;
            default: throw Unsupported{"fcmp"};
        }
        return Val::S(r.simplify(), 1);
    }
    Val fabsV(const Val& a) {
        Val r = mkFP(z3::expr(Z, Z3_mk_fpa_abs(Z, fpT(a))), a.w);
        if (a.xi) r.xi = std::make_shared<Val>(vite(vcmp(CmpInst::ICMP_SLT, *a.xi, Val::I(0, 64)), vsub(Val::I(0, 64), *a.xi), *a.xi));
        return r;
    }
    z3::expr rne() { return z3::expr(Z, Z3_mk_fpa_round_nearest_ties_to_even(Z)); }
    z3::expr rtz() { return z3::expr(Z, Z3_mk_fpa_round_toward_zero(Z)); }
    Val fbin(unsigned op, const Val& a, const Val& b) {
        if (a.w > 64) throw Unsupported{"fp80"};
        if (!a.sym && !b.sym) {
            if (a.w == 32) {
                float x = fpC(a), y = fpC(b), r = 0;
                switch (op) {
                    case Instruction::FAdd: r = x + y; break;
                    case Instruction::FSub: r = x - y; break;
                    case Instruction::FMul: r = x * y; break;
                    case Instruction::FDiv: r = x / y; break;
                    case Instruction::FRem: r = std::fmod(x, y); break;
                }
                return mkFPc(r, 32);
            }
            double x = fpC(a), y = fpC(b), r = 0;
            switch (op) {
                case Instruction::FAdd: r = x + y; break;
                case Instruction::FSub: r = x - y; break;
                case Instruction::FMul: r = x * y; break;
                case Instruction::FDiv: r = x / y; break;
                case Instruction::FRem: r = std::fmod(x, y); break;
            }
            return mkFPc(r, 64);
        }
        std::shared_ptr<Val> exact;
        if (a.w == 64) {
            std::shared_ptr<Val> xa = xiOf(a), xb = xiOf(b);
            if (xa && xb) {
                if (op == Instruction::FAdd || op == Instruction::FSub) {
                    Val t = op == Instruction::FAdd ? vadd(*xa, *xb) : vsub(*xa, *xb);
                    if (xiBound(t, (i128)1 << 53)) exact = std::make_shared<Val>(t);
                }
                else if (op == Instruction::FMul) {
                    if (!xa->sym || !xb->sym) {
                        const Val& c = xa->sym ? *xb : *xa;
                        const Val& v = xa->sym ? *xa : *xb;
                        i128 k = sext(c.c, 64);
                        if (k < 0) k = -k;
                        if (k == 0 || xiBound(v, ((i128)1 << 53) / k)) exact = std::make_shared<Val>(vmul(*xa, *xb));
                    }
                    else {
                        z3::expr no = z3::expr(Z, Z3_mk_bvmul_no_overflow(Z, T(*xa), T(*xb), true)) && z3::expr(Z, Z3_mk_bvmul_no_underflow(Z, T(*xa), T(*xb)));
                        Val t = vmul(*xa, *xb);
                        if (solver.feas(cur->pc, !no, nullptr) == UNSAT && xiBound(t, (i128)1 << 53)) exact = std::make_shared<Val>(t);
                    }
                }
            }
        }
        if (exact && !exact->sym) return mkFPc((double)(long long)sext(exact->c, 64), 64);
        if (op == Instruction::FRem) {
            std::shared_ptr<Val> xa = xiOf(a), xb = xiOf(b);
            if (xa && xb && !xb->sym && xb->c) return xiFP(vbin(Instruction::SRem, *xa, *xb));
        }
        z3::expr x = fpT(a), y = fpT(b), m = rne();
        Z3_ast r = nullptr;
        switch (op) {
            case Instruction::FAdd: r = Z3_mk_fpa_add(Z, m, x, y); break;
            case Instruction::FSub: r = Z3_mk_fpa_sub(Z, m, x, y); break;
            case Instruction::FMul: r = Z3_mk_fpa_mul(Z, m, x, y); break;
            case Instruction::FDiv: r = Z3_mk_fpa_div(Z, m, x, y); break;
            default: throw Unsupported{"frem"};
        }
        Val q = mkFP(z3::expr(Z, r), a.w);
        q.xi = exact;
        return q;
    }
    bool xiBound(const Val& v, i128 lim) {
        if (!v.sym) { i128 x = sext(v.c, 64); return x <= lim && x >= -lim; }
        z3::expr e = T(v);
        z3::expr inr = z3::sle(e, bvval((u128)lim, 64)) && z3::sge(e, bvval((u128)-lim, 64));
        auto key = std::make_pair(e.id(), (long long)lim);
        if (cur->decided) { auto it = cur->decided->find(inr.id()); if (it != cur->decided->end()) return it->second.second; }
        bool ok = solver.feas(cur->pc, !inr, nullptr) == UNSAT;
        if (ok) remember(*cur, inr, true);
        return ok;
    }
    Val xiFP(const Val& i64) {
        if (!i64.sym) return mkFPc((double)(long long)sext(i64.c, 64), 64);
        Val q = mkFP(z3::expr(Z, Z3_mk_fpa_to_fp_signed(Z, rne(), TB(i64), fpsort(64))), 64);
        q.xi = std::make_shared<Val>(i64);
        return q;
    }
    Val fcast(unsigned op, const Val& a, unsigned w) {
        switch (op) {
            case Instruction::FPTrunc:
            case Instruction::FPExt:
                if (!a.sym) return mkFPc(fpC(a), w);
                return mkFP(z3::expr(Z, Z3_mk_fpa_to_fp_float(Z, rne(), fpT(a), fpsort(w))), w);
            case Instruction::UIToFP:
                if (!a.sym) return w == 32 ? mkFPc((float)(unsigned long long)a.c, 32) : mkFPc((double)(unsigned long long)a.c, 64);
                if (w == 64 && a.w <= 64) { Val z = a.w < 64 ? vzext(a, 64) : a; if (xiBound(z, (i128)1 << 53)) return xiFP(z); }
                return mkFP(z3::expr(Z, Z3_mk_fpa_to_fp_unsigned(Z, rne(), TB(a), fpsort(w))), w);
            case Instruction::SIToFP:
                if (!a.sym) return w == 32 ? mkFPc((float)(long long)sext(a.c, a.w), 32) : mkFPc((double)(long long)sext(a.c, a.w), 64);
                if (w == 64 && a.w <= 64) { Val z = a.w < 64 ? vsext(a, 64) : a; if (xiBound(z, (i128)1 << 53)) return xiFP(z); }
                return mkFP(z3::expr(Z, Z3_mk_fpa_to_fp_signed(Z, rne(), TB(a), fpsort(w))), w);
            case Instruction::FPToUI:
                if (!a.sym) {
                    double d = fpC(a);
                    if (!(d > -1.0 && d < std::ldexp(1.0, w))) return Val::I(0, w);
                    return Val::I((u128)(unsigned long long)d, w);
                }
                if (xiOf(a)) return w < 64 ? vtrunc(*xiOf(a), w) : *xiOf(a);
                return Val::S(z3::expr(Z, Z3_mk_fpa_to_ubv(Z, rtz(), fpT(a), w)), w);
            case Instruction::FPToSI:
                if (!a.sym) {
                    double d = fpC(a);
                    if (!(d >= -std::ldexp(1.0, w - 1) - 1 && d < std::ldexp(1.0, w - 1))) return Val::I((u128)1 << (w - 1), w);
                    return Val::I((u128)(i128)(long long)d, w);
                }
                if (xiOf(a)) return w < 64 ? vtrunc(*xiOf(a), w) : *xiOf(a);
                return Val::S(z3::expr(Z, Z3_mk_fpa_to_sbv(Z, rtz(), fpT(a), w)), w);
        }
        throw Unsupported{"fp cast"};
    }
    Val fround(const Val& a, int mode) {  // 0 rne 1 floor 2 ceil 3 trunc 4 round-away
        if (!a.sym) {
            double d = fpC(a);
            double r = mode == 0 ? std::nearbyint(d) : mode == 1 ? std::floor(d) : mode == 2 ? std::ceil(d) : mode == 3 ? std::trunc(d) : std::round(d);
            return mkFPc(r, a.w);
        }
        if (xiOf(a)) return a;
        Z3_ast m = mode == 0 ? Z3_mk_fpa_rne(Z) : mode == 1 ? Z3_mk_fpa_rtn(Z) : mode == 2 ? Z3_mk_fpa_rtp(Z) : mode == 3 ? Z3_mk_fpa_rtz(Z) : Z3_mk_fpa_rna(Z);
        z3::expr me(Z, m);
        return mkFP(z3::expr(Z, Z3_mk_fpa_round_to_integral(Z, me, fpT(a))), a.w);
    }

    // ---- vc primitives -------------------------------------------------------------------------------------------
    Val inputScalar(State& s, unsigned w, const std::string& n, bool isSize = false) {
        Val v = fresh(w, n);
        Input in;
        in.kind = 's';
        in.name = n;
        in.v = v;
        in.isSize = isSize;
        s.inputs.push_back(in);
        return v;
    }
    static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
    static bool ends(const std::string& s, const char* p) {
        size_t n = strlen(p);
        return s.size() >= n && s.compare(s.size() - n, n, p) == 0;
    }

    bool vcPrim(State& s, const CallBase* cb, const std::string& n, std::vector<Val>& a, Val& ret) {
        std::string nm;
        auto name = [&](unsigned i) { return constStr(cb->getArgOperand(i)); };
        if (n == "vc_u64") { ret = inputScalar(s, 64, name(0)); return true; }
        if (n == "vc_u32") { ret = inputScalar(s, 32, name(0)); return true; }
        if (n == "vc_u16") { ret = inputScalar(s, 16, name(0)); return true; }
        if (n == "vc_u8") { ret = inputScalar(s, 8, name(0)); return true; }
        if (n == "vc_bool") { ret = inputScalar(s, 1, name(0)); return true; }
        if (n == "vc_f64") { ret = asFP(inputScalar(s, 64, name(0))); return true; }
        if (n == "vc_f32") { ret = asFP(inputScalar(s, 32, name(0))); return true; }
        if (n == "vc_range" || n == "vc_irange") {
            bool sg = n == "vc_irange";
            Val v = inputScalar(s, 64, name(2));
            ret = v;
            z3::expr lo = T(a[0]), hi = T(a[1]);
            z3::expr c1 = sg ? (v.e >= lo) : z3::uge(v.e, lo), c2 = sg ? (v.e <= hi) : z3::ule(v.e, hi);
            s.model.reset();
            addPC(s, c1);
            assume(s, Val::S(c2.simplify(), 1));
            return true;
        }
        if (n == "vc_size") {
            Val v = inputScalar(s, 64, name(1), true);
            ret = v;
            z3::expr hi = o.bounded ? T(a[0]) : bvval((u128)1 << 40, 64);
            assume(s, Val::S(z3::ule(v.e, hi).simplify(), 1));
            return true;
        }
        if (n == "vc_bytes" || n == "vc_array" || n == "vc_ghost_bytes") {
            unsigned es = n == "vc_array" ? (unsigned)a[1].c : 1;
            std::string nn = n == "vc_array" ? name(2) : n == "vc_bytes" ? name(1) : "ghost";
            if (n == "vc_array" && a[1].sym) throw Unsupported{"symbolic element size"};
            std::shared_ptr<z3::func_decl> fd;
            NodeP base = funNode(nn, es, &fd);
            Val sz = simp(vmul(a[0], Val::I(es, 64)));
            int ob = newObj(s, sz, Obj::Heap, nn, base);
            s.heap[ob - NG]->es = es;
            s.heap[ob - NG]->isNew = true;
            s.heap[ob - NG]->isArr = true;
            if (n != "vc_ghost_bytes") {
                Input in;
                in.kind = 'a';
                in.name = nn;
                in.v = a[0];
                in.es = es;
                in.f = fd;
                s.inputs.push_back(in);
            }
            if (a[0].sym) assume(s, Val::S(z3::ule(T(a[0]), bvval((u128)1 << 40, 64)).simplify(), 1));
            ret = Val::P(ob, Val::I(0, 64));
            return true;
        }
        if (n == "vc_split") {
            if (a[1].sym || a[2].sym) throw Unsupported{"vc_split range"};
            if (!a[0].sym) { ret = a[0]; return true; }
            uint64_t lo = a[1].u64(), hi = a[2].u64();
            while (lo < hi) {  // binary splitting
                uint64_t mid = lo + (hi - lo) / 2;
                if (decide(s, vcmp(CmpInst::ICMP_ULE, a[0], Val::I(mid, 64)))) hi = mid;
                else lo = mid + 1;
            }
            if (!check(s, vcmp(CmpInst::ICMP_EQ, a[0], Val::I(lo, 64)), "spec", "case split is exhaustive", "")) throw PathEnd{"split"};
            ret = Val::I(lo, 64);
            return true;
        }
        if (n == "vc_assume") { assume(s, a[0]); return true; }
        if (n == "vc_check") {
            std::string nmx = cstr(s, a[1]);
            if (!check(s, a[0], "spec", nmx, "")) throw PathEnd{"check"};
            return true;
        }
        if (n == "vc_cover") { covers[name(0)]++; return true; }
        if (n == "vc_symbolic") { ret = Val::I(1, 1); return true; }
        if (n == "vc_bounded") { ret = Val::I(o.bounded, 1); return true; }
        if (n == "vc_ghost_u64") { ret = fresh(64, "ghost"); return true; }
        if (n == "vc_ghost_f64") { ret = asFP(fresh(64, "ghost")); return true; }
        if (n == "vc_replace") {
            std::string f = name(0);
            auto* st = dyn_cast<Function>(cb->getArgOperand(1)->stripPointerCasts());
            if (!st || f.empty()) throw Unsupported{"vc_replace arguments"};
            replaceMap[f] = st;
            return true;
        }
        if (n == "vc_loop") return true;
        if (n == "vc_unmodelled") { unmodelled.insert(name(0)); return true; }
        if (n == "vc_option") {
            std::string f = name(0);
            if (f == "intlift") solver.o.intlift = a[1].c != 0;
            if (f == "full_ms") solver.o.full_ms = (unsigned)a[1].c;
            if (f == "quick_ms") solver.o.quick_ms = (unsigned)a[1].c;
            if (f == "feas_ms") solver.o.feas_ms = (unsigned)a[1].c;
            if (f == "ext_s") solver.o.ext_s = (unsigned)a[1].c;
            if (f == "fp_bound") fpBound = (uint64_t)a[1].c;
            if (f == "fp_any") fpAny = a[1].c != 0;
            if (f == "unroll" && !o.unroll) unroll = (unsigned)a[1].c;
            return true;
        }
        if (n == "vc_havoc") {
            Val p = a[0];
            int ob = access(s, p, a[1], "havoc", true);
            if (ob >= 0) havocMem(s, ob, p, a[1], "havoc");
            return true;
        }
        if (n == "vc_ite") { ret = vite(a[0], a[1], a[2]); return true; }
        if (n == "vc_peek") {   // total read (specifications): no bounds obligation, 0 when the condition is false
            if (!a[3].sym && !a[3].c) { ret = Val::I(0, 64); return true; }
            if (a[2].sym) throw Unsupported{"vc_peek with symbolic element size"};
            Val p = a[0];
            decodePtr(s, p);
            if (p.obj < 0 || !exists(s, p.obj)) throw Unsupported{"vc_peek at an unknown object"};
            const Obj* ob = rd(s, p.obj);
            unsigned es = (unsigned)a[2].u64();
            Val off = p;
            off.obj = -1;
            off = simp(vadd(off, vmul(a[1], Val::I(es, 64))));
            Val v = asInt(readMem(s, &ob->cells, ob->chain.get(), ob->es, off, es));
            if (v.isPtr()) throw Unsupported{"vc_peek at a pointer"};
            if (v.w != 64) v = vzext(v, 64);
            ret = vite(a[3], v, Val::I(0, 64));
            return true;
        }
        if (n == "vc_obj_size") {
            Val p = a[0];
            decodePtr(s, p);
            if (p.obj < 0 || !exists(s, p.obj) || !slotFor(s, p.obj)) { ret = Val::I(0, 64); return true; }
            ret = rd(s, p.obj)->size;
            return true;
        }
        return false;
    }

    // ---- heap ----------------------------------------------------------------------------------------------------
    Val allocate(State& s, Val size, bool arr, const char* nm) {
        if (size.sym) assume(s, Val::S(z3::ule(T(size), bvval((u128)1 << 41, 64)).simplify(), 1));
        else if (size.c > ((u128)1 << 41)) throw PathEnd{"allocation too large"};
        int ob = newObj(s, size, Obj::Heap, nm, funNode("heap", 1));
        s.heap[ob - NG]->isNew = true;
        s.heap[ob - NG]->isArr = arr;
        return Val::P(ob, Val::I(0, 64));
    }
    void release(State& s, Val p, const char* what) {
        decodePtr(s, p);
        if (p.obj < 0) {
            if (!p.sym && p.c == 0) return;
            failHere(s, "memory", std::string("invalid ") + what, curLoc(s));
        }
        if (!exists(s, p.obj) || !slotFor(s, p.obj)) failHere(s, "memory", std::string("double ") + what, curLoc(s));
        const Obj* ob = rd(s, p.obj);
        bool okp = ob->kind == Obj::Heap && !p.sym && p.c == 0;
        if (!okp) {
            if (p.sym && ob->kind == Obj::Heap) {
                Val off = p;
                off.obj = -1;
                if (!check(s, vcmp(CmpInst::ICMP_EQ, off, Val::I(0, 64)), "memory", std::string("valid ") + what, curLoc(s))) throw PathEnd{"free"};
            }
            else failHere(s, "memory", std::string("invalid ") + what, curLoc(s));
        }
        s.heap[p.obj - NG].reset();
    }

    Val mkAgg(std::initializer_list<Val> l) {
        Val v;
        v.k = Val::Agg;
        v.agg = std::make_shared<std::vector<Val>>(l);
        return v;
    }

    bool intrinsic(State& s, const IntrinsicInst* I, std::vector<Val>& a, Val& ret) {
        auto id = I->getIntrinsicID();
        switch (id) {
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::dbg_assign:
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
            case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::donothing:
            case Intrinsic::prefetch:
            case Intrinsic::stackrestore: return true;
            case Intrinsic::invariant_start: ret = Val::I(0, 64); return true;
            case Intrinsic::stacksave: ret = Val::I(0, 64); return true;
            case Intrinsic::expect:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::threadlocal_address: ret = a[0]; return true;
            case Intrinsic::is_constant: ret = Val::I(0, 1); return true;
            case Intrinsic::objectsize: ret = Val::I(~(u128)0, I->getType()->getIntegerBitWidth()); return true;
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove: memcpyB(s, a[0], a[1], vzext(a[2], 64), id != Intrinsic::memmove); return true;
            case Intrinsic::memset: memsetB(s, a[0], a[1], vzext(a[2], 64)); return true;
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::smul_with_overflow:
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::umul_with_overflow: ret = overflowOp(id, a[0], a[1]); return true;
            case Intrinsic::smax: ret = vite(vcmp(CmpInst::ICMP_SGT, a[0], a[1]), a[0], a[1]); return true;
            case Intrinsic::smin: ret = vite(vcmp(CmpInst::ICMP_SLT, a[0], a[1]), a[0], a[1]); return true;
            case Intrinsic::umax: ret = vite(vcmp(CmpInst::ICMP_UGT, a[0], a[1]), a[0], a[1]); return true;
            case Intrinsic::umin: ret = vite(vcmp(CmpInst::ICMP_ULT, a[0], a[1]), a[0], a[1]); return true;
            case Intrinsic::abs: {
                Val neg = vsub(Val::I(0, a[0].w), a[0]);
                ret = vite(vcmp(CmpInst::ICMP_SLT, a[0], Val::I(0, a[0].w)), neg, a[0]);
                return true;
            }
            case Intrinsic::uadd_sat: {
                Val r = vadd(a[0], a[1]);
                ret = vite(vcmp(CmpInst::ICMP_ULT, r, a[0]), Val::I(maskw(r.w), r.w), r);
                return true;
            }
            case Intrinsic::usub_sat: ret = vite(vcmp(CmpInst::ICMP_ULT, a[0], a[1]), Val::I(0, a[0].w), vsub(a[0], a[1])); return true;
            case Intrinsic::bswap: {
                std::vector<Val> b;
                for (unsigned i = a[0].w / 8; i-- > 0;) b.push_back(vextractByte(a[0], i));
                ret = vconcatBytes(b);
                return true;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr: {
                unsigned w = a[0].w;
                if (a[2].sym) throw Unsupported{"symbolic funnel shift"};
                unsigned k = (unsigned)(a[2].c % w);
                if (k == 0) { ret = id == Intrinsic::fshl ? a[0] : a[1]; return true; }
                unsigned l = id == Intrinsic::fshl ? k : w - k;
                ret = vbin(Instruction::Or, vbin(Instruction::Shl, a[0], Val::I(l, w)), vbin(Instruction::LShr, a[1], Val::I(w - l, w)));
                return true;
            }
            case Intrinsic::ctpop: {
                Val r = Val::I(0, a[0].w);
                for (unsigned i = 0; i < a[0].w; i++)
                    r = vadd(r, vbin(Instruction::And, vbin(Instruction::LShr, a[0], Val::I(i, a[0].w)), Val::I(1, a[0].w)));
                ret = r;
                return true;
            }
            case Intrinsic::ctlz:
            case Intrinsic::cttz: {
                unsigned w = a[0].w;
                Val r = Val::I(w, w);
                for (unsigned k = 0; k < w; k++) {
                    unsigned i = id == Intrinsic::ctlz ? k : w - 1 - k;
                    Val bit = vtrunc(vbin(Instruction::LShr, a[0], Val::I(i, w)), 1);
                    r = vite(bit, Val::I(id == Intrinsic::ctlz ? w - 1 - i : i, w), r);
                }
                ret = r;
                return true;
            }
            case Intrinsic::fabs:
                if (!a[0].sym) { ret = Val::I(a[0].c & (maskw(a[0].w) >> 1), a[0].w); ret.k = Val::FP; }
                else ret = fabsV(a[0]);
                return true;
            case Intrinsic::sqrt: ret = fsqrt(a[0]); return true;
            case Intrinsic::floor: ret = fround(a[0], 1); return true;
            case Intrinsic::ceil: ret = fround(a[0], 2); return true;
            case Intrinsic::trunc: ret = fround(a[0], 3); return true;
            case Intrinsic::round: ret = fround(a[0], 4); return true;
            case Intrinsic::rint:
            case Intrinsic::nearbyint:
            case Intrinsic::roundeven: ret = fround(a[0], 0); return true;
            case Intrinsic::fmuladd: ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]); return true;
            case Intrinsic::maxnum: ret = fminmax(a[0], a[1], true); return true;
            case Intrinsic::minnum: ret = fminmax(a[0], a[1], false); return true;
            case Intrinsic::copysign: {
                Val x = asInt(a[0]), y = asInt(a[1]);
                u128 sb = (u128)1 << (x.w - 1);
                ret = asFP(vbin(Instruction::Or, vbin(Instruction::And, x, Val::I(sb - 1, x.w)), vbin(Instruction::And, y, Val::I(sb, x.w))));
                return true;
            }
            case Intrinsic::is_fpclass: {
                unsigned m = (unsigned)a[1].c;
                z3::expr x = fpT(a[0]);
                z3::expr neg(Z, Z3_mk_fpa_is_negative(Z, x)), pos(Z, Z3_mk_fpa_is_positive(Z, x));
                z3::expr nan(Z, Z3_mk_fpa_is_nan(Z, x)), inf(Z, Z3_mk_fpa_is_infinite(Z, x)), nor(Z, Z3_mk_fpa_is_normal(Z, x)), sub(Z, Z3_mk_fpa_is_subnormal(Z, x)), zer(Z, Z3_mk_fpa_is_zero(Z, x));
                z3::expr r = Z.bool_val(false);
                if (m & 3) r = r || nan;
                if (m & 4) r = r || (inf && neg);
                if (m & 8) r = r || (nor && neg);
                if (m & 16) r = r || (sub && neg);
                if (m & 32) r = r || (zer && neg);
                if (m & 64) r = r || (zer && pos);
                if (m & 128) r = r || (sub && pos);
                if (m & 256) r = r || (nor && pos);
                if (m & 512) r = r || (inf && pos);
                ret = Val::S(r.simplify(), 1);
                return true;
            }
            case Intrinsic::eh_typeid_for: ret = Val::I(typeId(I->getArgOperand(0)), 32); return true;
            case Intrinsic::ubsantrap:
                failHere(s, "ub", std::string("no ") + trapName((unsigned)a[0].c), curLoc(s));
                return true;
            case Intrinsic::trap: failHere(s, "ub", "trap reached", curLoc(s)); return true;
            default: break;
        }
        throw Unsupported{"intrinsic " + I->getCalledFunction()->getName().str()};
    }
    Val fsqrt(const Val& a) {
        if (!a.sym) return mkFPc(a.w == 32 ? (double)std::sqrt((float)fpC(a)) : std::sqrt(fpC(a)), a.w);
        return mkFP(z3::expr(Z, Z3_mk_fpa_sqrt(Z, rne(), fpT(a))), a.w);
    }
    Val fminmax(const Val& a, const Val& b, bool mx) {
        if (!a.sym && !b.sym) return mkFPc(mx ? std::fmax(fpC(a), fpC(b)) : std::fmin(fpC(a), fpC(b)), a.w);
        return mkFP(z3::expr(Z, mx ? Z3_mk_fpa_max(Z, fpT(a), fpT(b)) : Z3_mk_fpa_min(Z, fpT(a), fpT(b))), a.w);
    }
    Val overflowOp(unsigned id, const Val& a0, const Val& b0) {
        Val a = flat(a0), b = flat(b0);
        unsigned w = a.w;
        bool cc = !a.sym && !b.sym;
        Val r;
        Val ov;
        switch (id) {
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::ssub_with_overflow: {
                bool add = id == Intrinsic::sadd_with_overflow;
                r = add ? vadd(a, b) : vsub(a, b);
                if (cc) {
                    i128 x = sext(a.c, w), y = sext(b.c, w), z = add ? x + y : x - y;
                    ov = Val::I(z != sext(r.c, w), 1);
                }
                else {
                    // overflow iff the operand signs force it
                    z3::expr zero = bvval(0, w), A = T(a), B = T(b), R = T(r);
                    z3::expr mx = bvval(maskw(w) >> 1, w), mn = bvval((u128)1 << (w - 1), w);
                    z3::expr e = Z.bool_val(false);
                    if (add) e = (B >= zero && A > mx - B) || (B < zero && A < mn - B);
                    else e = (B >= zero && A < mn + B) || (B < zero && A > mx + B);
                    ov = Val::S(e.simplify(), 1);
                }
                break;
            }
            case Intrinsic::uadd_with_overflow:
                r = vadd(a, b);
                ov = vcmp(CmpInst::ICMP_ULT, r, a);
                break;
            case Intrinsic::usub_with_overflow:
                r = vsub(a, b);
                ov = vcmp(CmpInst::ICMP_ULT, a, b);
                break;
            case Intrinsic::umul_with_overflow:
            case Intrinsic::smul_with_overflow: {
                bool sg = id == Intrinsic::smul_with_overflow;
                r = vmul(a, b);
                if (cc && w <= 64) {
                    if (sg) ov = Val::I(sext(a.c, w) * sext(b.c, w) != sext(r.c, w), 1);
                    else ov = Val::I(a.c * b.c != r.c, 1);
                }
                else if (sg) {
                    z3::expr A = T(a), B = T(b);
                    if (!a.sym || !b.sym) {
                        // constant factor: a range test
                        const Val& k = a.sym ? b : a;
                        const Val& x = a.sym ? a : b;
                        i128 c = sext(k.c, w), mx = (i128)(maskw(w) >> 1), mn = -mx - 1;
                        if (c == 0 || c == 1) ov = Val::I(0, 1);
                        else if (c == -1) ov = vcmp(CmpInst::ICMP_EQ, x, Val::I((u128)mn, w));
                        else {
                            i128 hi = c > 0 ? mx / c : -((-(mn + 1)) / c), lo = c > 0 ? -((-(mn + 1) ) / c) : -(mx / -c);
                            // exact bounds with truncating division
                            if (c > 0) { hi = mx / c; lo = mn / c; }
                            else { hi = mn / c; lo = mx / c; }
                            Val o1 = vcmp(CmpInst::ICMP_SGT, x, Val::I((u128)hi, w)), o2 = vcmp(CmpInst::ICMP_SLT, x, Val::I((u128)lo, w));
                            ov = vbin(Instruction::Or, o1, o2);
                        }
                    }
                    else {
                        z3::expr no = z3::expr(Z, Z3_mk_bvmul_no_overflow(Z, A, B, true)) && z3::expr(Z, Z3_mk_bvmul_no_underflow(Z, A, B));
                        ov = Val::S(!no, 1);
                    }
                }
                else {
                    if (!a.sym || !b.sym) {
                        const Val& k = a.sym ? b : a;
                        const Val& x = a.sym ? a : b;
                        if (k.c == 0) ov = Val::I(0, 1);
                        else ov = vcmp(CmpInst::ICMP_UGT, x, Val::I(maskw(w) / k.c, w));
                    }
                    else ov = Val::S(!z3::expr(Z, Z3_mk_bvmul_no_overflow(Z, T(a), T(b), false)), 1);
                }
                break;
            }
        }
        return mkAgg({r, ov});
    }
    void memcpyB(State& s, Val d, Val src, Val n, bool strict) {
        if (!n.sym && n.c == 0) return;
        int so = access(s, src, n, "read (memcpy)", false);
        int dO = access(s, d, n, "write (memcpy)", true);
        if (so < 0 || dO < 0) return;
        (void)strict;
        copyMem(s, dO, d, so, src, n);
    }
    void memsetB(State& s, Val d, Val b, Val n) {
        if (!n.sym && n.c == 0) return;
        int dO = access(s, d, n, "write (memset)", true);
        if (dO < 0) return;
        setMem(s, dO, d, vtrunc(b, 8), n);
    }

    // ---- library model -------------------------------------------------------------------------------------------
    std::unordered_map<const Function*, int> fnClass;  // 0 normal, 1 noop-ctor, 2 ostream (returns arg0), 3 noop, 4 str()
    static size_t lastScope(const std::string& q) {  // last "::" outside template arguments
        int depth = 0;
        for (size_t i = q.size(); i-- > 1;) {
            if (q[i] == '>' && q[i - 1] != '-') depth++;
            else if (q[i] == '<') depth--;
            else if (depth == 0 && q[i] == ':' && q[i - 1] == ':') return i - 1;
        }
        return std::string::npos;
    }
    int classify(const Function* F, const std::string& n, FnInfo* fi) {
        auto it = fnClass.find(F);
        if (it != fnClass.end()) return it->second;
        int c = 0;
        const std::string& d = fi->dem;
        const std::string& q = fi->qual;
        // constructors/destructors of exception classes
        size_t p = lastScope(q);
        if (p != std::string::npos) {
            std::string cls = q.substr(0, p), last = q.substr(p + 2);
            size_t p2 = lastScope(cls);
            std::string base = p2 == std::string::npos ? cls : cls.substr(p2 + 2);
            if (base.find('<') != std::string::npos && last.find('<') == std::string::npos) base = base.substr(0, base.find('<'));
            if (last == base || last == "~" + base) {
                // find the type info of cls
                for (auto& kv : tiByDem())
                    if (kv.first == "typeinfo for " + cls) {
                        if (derives(kv.second, "_ZTISt9exception")) c = 1;
                        break;
                    }
                if (cls == "eckit::Exception") c = 1;
                if (starts(cls, "std::__cxx11::basic_ostringstream") || starts(cls, "std::__cxx11::basic_stringstream") || starts(cls, "std::__cxx11::basic_istringstream") || cls == "eckit::Channel" || starts(cls, "std::basic_ostream") || starts(cls, "eckit::TraceTimer") || cls == "eckit::Timer" || cls == "eckit::CodeLocation" || starts(cls, "std::locale") || cls == "eckit::SavedStatus")
                    c = 3;
                if (starts(cls, "std::ios_base")) c = 3;
            }
            if (starts(cls, "std::basic_ostream<") || starts(cls, "std::ostream")) c = 2;
            if (cls == "eckit::Log") c = 5;
            if ((starts(cls, "std::__cxx11::basic_ostringstream") || starts(cls, "std::__cxx11::basic_stringstream")) && last == "str") c = 4;
            if (starts(cls, "std::basic_ios<char")) c = (last == "operator bool" || last == "good" || last == "fail" || last == "eof" || last == "operator!") ? 5 : 3;
            if (starts(cls, "std::__cxx11::basic_stringbuf") || (starts(cls, "std::basic_streambuf") && F->isDeclaration())) c = 3;
            if (last == "what" || last == "dumpStackTrace") c = (last == "what") ? 6 : c;
        }
        if (c == 0 && (d.find("operator<<") != std::string::npos) &&
            (d.find("(std::ostream&") != std::string::npos || d.find("(std::basic_ostream<char") != std::string::npos))
            c = 2;
        if (starts(d, "std::basic_ostream<char, std::char_traits<char>>& std::operator<<") || starts(d, "std::basic_ostream<char, std::char_traits<char> >& std::operator<<")) c = 2;
        if (starts(d, "std::ostream::operator<<")) c = 2;
        if (d.find("std::endl") == 0 || d.find("& std::endl<") != std::string::npos || d.find("& std::flush<") != std::string::npos) c = 2;
        fnClass[F] = c;
        return c;
    }
    std::map<std::string, std::string>& tiByDem() {
        static std::map<std::string, std::string> m;
        if (m.empty())
            for (auto& kv : tiByName) m[demangleS(kv.first)] = kv.first;
        return m;
    }
    std::set<std::string> usedModel;

    void doCall(State& s, const CallBase* cb) {
        if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
            auto id = ii->getIntrinsicID();
            if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) {
                advance(s);
                return;
            }
            std::vector<Val> a;
            for (auto& op : ii->args()) {
                if (op->getType()->isMetadataTy()) { a.emplace_back(); continue; }
                if (id == Intrinsic::eh_typeid_for || id == Intrinsic::stackrestore) { a.emplace_back(); continue; }
                a.push_back(get(s, op));
            }
            Val r;
            intrinsic(s, ii, a, r);
            finishCall(s, &r);
            return;
        }
        if (cb->isInlineAsm()) {
            if (cb->getType()->isVoidTy()) { advance(s); return; }
            throw Unsupported{"inline asm"};
        }
        const Value* callee = cb->getCalledOperand()->stripPointerCasts();
        const Function* F = dyn_cast<Function>(callee);
        if (!F)
            if (auto* ga = dyn_cast<GlobalAlias>(callee)) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (!F) {
            Val fp = get(s, cb->getCalledOperand());
            decodePtr(s, fp);
            if (fp.obj < 0) failHere(s, "memory", "call through null/invalid function pointer", curLoc(s));
            if (fp.sym || fp.obj >= NG || !isa<Function>(gvs[fp.obj])) throw Unsupported{"indirect call"};
            F = cast<Function>(gvs[fp.obj]);
        }
        std::string n = F->getName().str();
        std::vector<Val> a;
        for (auto& op : cb->args()) a.push_back(get(s, op));
        callFn(s, cb, const_cast<Function*>(F), n, a);
    }

    void callFn(State& s, const CallBase* cb, Function* F, const std::string& n, std::vector<Val>& a) {
        Val ret;
        if (starts(n, "vc_")) {
            if (vcPrim(s, cb, n, a, ret)) { finishCall(s, &ret); return; }
        }
        FnInfo* fi = info(F);
        // contract replacement
        if (!replaceMap.empty()) {
            auto it = replaceMap.find(fi->dem);
            if (it == replaceMap.end()) it = replaceMap.find(fi->qual);
            if (it != replaceMap.end()) {
                bool inStub = false;
                for (auto& f : s.st)
                    if (f.fi->F == it->second) inStub = true;
                if (!inStub) {
                    contracts[fi->dem]++;
                    pushCall(s, it->second, a);
                    return;
                }
            }
        }
        for (auto& u : unmodelled)
            if (starts(fi->qual, u.c_str())) {
                size_t c = fi->qual.rfind("::");
                std::string last = c == std::string::npos ? fi->qual : fi->qual.substr(c + 2), cls = c == std::string::npos ? "" : fi->qual.substr(0, c);
                if (starts(cls, (last + "<").c_str()) || cls.find("::" + last + "<") != std::string::npos) continue;   // constructors
                throw Unsupported{"call outside the contracts assumed for " + u + ": " + fi->dem};
            }
        // model override
        if (Function* m = M->getFunction("vcm." + n)) {
            if (!m->isDeclaration()) {
                trusted["model of " + fi->dem]++;
                pushCall(s, m, a);
                return;
            }
        }
        if (builtin(s, cb, F, n, fi, a, ret)) return;  // builtin finishes the call itself
        int c = classify(F, n, fi);
        if (c) {
            if (c == 1) {
                trusted["exception constructors/destructors have no effect on other objects"]++;
                if (a.size() && (n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos)) {
                    // give it a vtable so that virtual calls on a caught exception resolve
                    size_t p = fi->qual.rfind("::");
                    std::string cls = fi->qual.substr(0, p);
                    auto it = tiByDem().find("typeinfo for " + cls);
                    if (it != tiByDem().end()) {
                        std::string vt = "_ZTV" + it->second.substr(4);
                        if (GlobalVariable* g = M->getGlobalVariable(vt, true)) {
                            Val vp = Val::P(gid.at(g), Val::I(16, 64));
                            Val p0 = a[0];
                            int obx = access(s, p0, Val::I(8, 64), "write", true);
                            writeMem(s, obx, p0, 8, vp);
                        }
                    }
                }
                finishVoidOr(s, cb, a);
                return;
            }
            if (c == 2) {
                trusted["ostream output has no effect on program state"]++;
                ret = a.empty() ? Val::I(0, 64) : a[0];
                if (cb->getType()->isVoidTy()) finishCall(s, nullptr);
                else if (cb->getType()->isPointerTy()) finishCall(s, &ret);
                else { ret = havocOf(s, cb->getType()); finishCall(s, &ret); }
                return;
            }
            if (c == 3) { trusted["no-op: " + fi->qual]++; finishVoidOr(s, cb, a); return; }
            if (c == 5) {
                trusted["unspecified result: " + fi->qual]++;
                if (cb->getType()->isVoidTy()) { finishCall(s, nullptr); return; }
                if (cb->getType()->isPointerTy()) ret = opaque(s);
                else ret = havocOf(s, cb->getType());
                finishCall(s, &ret);
                return;
            }
            if (c == 6) {
                ret = emptyStr(s);
                finishCall(s, &ret);
                return;
            }
            if (c == 4) {
                trusted["text of ostringstream::str() unspecified (modelled as empty)"]++;
                // sret std::string at a[0]: {ptr -> local buf, size 0, buf}
                Val p0 = a[0];
                int obx = access(s, p0, Val::I(32, 64), "write", true);
                Val buf = vadd(p0, Val::I(16, 64));
                buf.obj = p0.obj;
                Val szp = vadd(p0, Val::I(8, 64));
                writeMem(s, obx, p0, 8, buf);
                writeMem(s, obx, szp, 8, Val::I(0, 64));
                writeMem(s, obx, buf, 1, Val::I(0, 8));
                finishCall(s, nullptr);
                return;
            }
        }
        if (F->isDeclaration()) throw Unsupported{"external function " + n + " [" + fi->dem + "]"};
        pushCall(s, F, a);
    }
    Val emptyStr(State& s) {
        int ob = newObj(s, Val::I(16, 64), Obj::Heap, "text", zeroNode());
        return Val::P(ob, Val::I(0, 64));
    }
    Val opaque(State& s) {
        int ob = newObj(s, Val::I(4096, 64), Obj::Heap, "opaque", zeroNode());
        return Val::P(ob, Val::I(0, 64));
    }
    Val havocOf(State& s, Type* t) {
        unsigned w = t->isPointerTy() ? 64 : t->getScalarSizeInBits();
        Val v = fresh(w, "unspec");
        if (t->isFloatingPointTy()) v = asFP(v);
        return v;
    }
    void finishVoidOr(State& s, const CallBase* cb, std::vector<Val>& a) {
        if (cb->getType()->isVoidTy()) finishCall(s, nullptr);
        else { Val r = a.empty() ? Val::I(0, 64) : a[0]; finishCall(s, &r); }
    }

    bool builtin(State& s, const CallBase* cb, Function* F, const std::string& n, FnInfo* fi, std::vector<Val>& a, Val& ret) {
        auto fin = [&](const Val& v) { Val r = v; finishCall(s, &r); return true; };
        auto finv = [&]() { finishCall(s, nullptr); return true; };
        // allocation
        if (n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "malloc") {
            trusted["allocation succeeds (sizes up to 2^41)"]++;
            return fin(allocate(s, a[0], n[3] == 'a', "heap"));
        }
        if (n == "calloc") {
            Val sz = vmul(a[0], a[1]);
            Val p = allocate(s, sz, false, "heap");
            s.heap[p.obj - NG]->chain = zeroNode();
            return fin(p);
        }
        if (starts(n, "_ZdlPv") || starts(n, "_ZdaPv") || n == "free") { release(s, a[0], "delete/free"); return finv(); }
        if (n == "posix_memalign") {
            Val p = allocate(s, a[2], false, "heap");
            Val d = a[0];
            int obx = access(s, d, Val::I(8, 64), "write", true);
            writeMem(s, obx, d, 8, p);
            return fin(Val::I(0, 32));
        }
        // memory
        if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { memcpyB(s, a[0], a[1], a[2], n == "memcpy"); return fin(a[0]); }
        if (n == "memset") { memsetB(s, a[0], a[1], a[2]); return fin(a[0]); }
        if (n == "memcmp" || n == "bcmp") {
            if (!a[2].sym) {
                uint64_t k = a[2].u64();
                if (k == 0) return fin(Val::I(0, 32));
                Val p = a[0], q = a[1];
                int o1 = access(s, p, a[2], "read (memcmp)", false), o2 = access(s, q, a[2], "read (memcmp)", false);
                if (k > 4096) throw Unsupported{"long memcmp"};
                const Obj *x = rd(s, o1), *y = rd(s, o2);
                p.obj = q.obj = -1;
                Val r = Val::I(0, 32);
                for (uint64_t i = k; i-- > 0;) {
                    Val b1 = readByte(s, &x->cells, x->chain.get(), vadd(p, Val::I(i, 64))), b2 = readByte(s, &y->cells, y->chain.get(), vadd(q, Val::I(i, 64)));
                    Val eq = vcmp(CmpInst::ICMP_EQ, b1, b2);
                    Val df = vsub(vzext(b1, 32), vzext(b2, 32));
                    r = vite(eq, r, df);
                }
                return fin(r);
            }
            Function* m = M->getFunction("vcmodel_memcmp");
            if (!m) throw Unsupported{"memcmp"};
            pushCall(s, m, a);
            return true;
        }
        if (n == "strlen") { Function* m = M->getFunction("vcmodel_strlen"); if (!m) throw Unsupported{"strlen"}; pushCall(s, m, a); return true; }
        if (n == "memchr") { Function* m = M->getFunction("vcmodel_memchr"); if (!m) throw Unsupported{"memchr"}; pushCall(s, m, a); return true; }
        // exceptions
        if (n == "__cxa_allocate_exception") {
            Val p = allocate(s, a[0], false, "exc");
            s.heap[p.obj - NG]->chain = zeroNode();
            return fin(p);
        }
        if (n == "__cxa_free_exception") { release(s, a[0], "free exception"); return finv(); }
        if (n == "__cxa_throw") {
            throwLoc = curLoc(s);
            s.excPtr = a[0];
            s.excTI = cb->getArgOperand(1);
            if (!isa<GlobalValue>(s.excTI->stripPointerCasts())) throw Unsupported{"throw type"};
            unwind(s);
            return true;
        }
        if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") {
            if (n == "__cxa_begin_catch") s.caught.push_back({s.excPtr, s.excTI});
            return fin(a[0]);
        }
        if (n == "__cxa_end_catch") {
            if (!s.caught.empty()) s.caught.pop_back();
            return finv();
        }
        if (n == "__cxa_rethrow") {
            if (s.caught.empty()) throw Unsupported{"rethrow"};
            s.excPtr = s.caught.back().first;
            s.excTI = s.caught.back().second;
            throwLoc = curLoc(s);
            unwind(s);
            return true;
        }
        if (n == "_ZSt9terminatev" || n == "abort" || n == "__clang_call_terminate" || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual" || n == "__assert_fail" || n == "_ZSt20__throw_bad_alloc" ) {
            failHere(s, "exception", "program terminates (" + fi->dem + ")", curLoc(s));
            return true;
        }
        if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos) {
            static const std::vector<std::pair<const char*, const char*>> m = {
                {"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"},
                {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"},
                {"bad_cast", "_ZTISt8bad_cast"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"system_error", "_ZTISt12system_error"}, {"bad_optional", "_ZTISt9exception"}, {"bad_variant", "_ZTISt9exception"}};
            for (auto& x : m)
                if (n.find(x.first) != std::string::npos) { throwStd(s, x.second); return true; }
            throwStd(s, "_ZTISt9exception");
            return true;
        }
        if (n == "__cxa_throw_bad_array_new_length") { throwStd(s, "_ZTISt20bad_array_new_length"); return true; }
        if (n == "__cxa_guard_acquire") {
            Val p = a[0];
            int obx = access(s, p, Val::I(1, 64), "read", false);
            const Obj* x = rd(s, obx);
            Val off = p;
            off.obj = -1;
            Val b = readByte(s, &x->cells, x->chain.get(), off);
            if (b.sym) throw Unsupported{"guard"};
            return fin(Val::I(b.c == 0, 32));
        }
        if (n == "__cxa_guard_release") {
            Val p = a[0];
            int obx = access(s, p, Val::I(1, 64), "write", true);
            writeMem(s, obx, p, 1, Val::I(1, 8));
            return finv();
        }
        if (n == "__cxa_guard_abort") return finv();
        if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") return fin(Val::I(0, 32));
        if (starts(n, "pthread_") || n == "__pthread_key_create" || n == "sched_yield") {
            trusted["pthread calls succeed (single thread)"]++;
            if (cb->getType()->isVoidTy()) return finv();
            if (n == "pthread_self") return fin(Val::I(1, 64));
            return fin(Val::I(0, cb->getType()->getScalarSizeInBits()));
        }
        if (n == "__errno_location") {
            GlobalVariable* g = M->getGlobalVariable("vcmodel_errno", true);
            if (!g) throw Unsupported{"errno"};
            return fin(Val::P(gid.at(g), Val::I(0, 64)));
        }
        if (n == "__dynamic_cast") return dynCast(s, cb, a);
        // libm
        if (!F->isDeclaration()) return false;
        if (n == "sqrt" || n == "sqrtf") return fin(fsqrt(a[0]));
        if (n == "floor" || n == "floorf") return fin(fround(a[0], 1));
        if (n == "ceil" || n == "ceilf") return fin(fround(a[0], 2));
        if (n == "trunc" || n == "truncf") return fin(fround(a[0], 3));
        if (n == "round" || n == "roundf") return fin(fround(a[0], 4));
        if (n == "rint" || n == "nearbyint") return fin(fround(a[0], 0));
        if (n == "lround" || n == "llround" || n == "lrint" || n == "llrint") {
            Val r = fround(a[0], n[1] == 'l' ? (n[2] == 'r' && n[3] == 'o' ? 4 : 0) : (n[1] == 'r' && n[2] == 'o' ? 4 : 0));
            return fin(fcast(Instruction::FPToSI, r, 64));
        }
        if (n == "fabs" || n == "fabsf") {
            if (!a[0].sym) { Val r = Val::I(a[0].c & (maskw(a[0].w) >> 1), a[0].w); r.k = Val::FP; return fin(r); }
            return fin(fabsV(a[0]));
        }
        if (n == "fmod" && xiOf(a[0]) && xiOf(a[1])) return fin(fbin(Instruction::FRem, a[0], a[1]));
        if (n == "fmin") return fin(fminmax(a[0], a[1], false));
        if (n == "fmax") return fin(fminmax(a[0], a[1], true));
        if (!a.empty() && !a[0].sym && a[0].k == Val::FP) {
            double (*f1)(double) = n == "sin" ? (double (*)(double))std::sin : n == "cos" ? (double (*)(double))std::cos : n == "tan" ? (double (*)(double))std::tan
                                 : n == "acos" ? (double (*)(double))std::acos : n == "asin" ? (double (*)(double))std::asin : n == "atan" ? (double (*)(double))std::atan
                                 : n == "exp" ? (double (*)(double))std::exp : n == "log" ? (double (*)(double))std::log : n == "exp2" ? (double (*)(double))std::exp2 : n == "log2" ? (double (*)(double))std::log2 : n == "log10" ? (double (*)(double))std::log10 : nullptr;
            if (f1) return fin(mkFPc(f1(fpC(a[0])), a[0].w));
            if (n == "pow" && !a[1].sym) return fin(mkFPc(std::pow(fpC(a[0]), fpC(a[1])), 64));
            if (n == "fmod" && !a[1].sym) return fin(mkFPc(std::fmod(fpC(a[0]), fpC(a[1])), 64));
        }
        if (n == "sin" || n == "cos" || n == "tan" || n == "exp" || n == "log" || n == "pow" || n == "fmod" || n == "acos" || n == "asin" || n == "atan" || n == "atan2" || n == "log2" || n == "log10" || n == "ldexp" || n == "hypot") {
            trusted["libm " + n + " unspecified"]++;
            return fin(havocOf(s, cb->getType()));
        }
        return false;
    }

    bool dynCast(State& s, const CallBase* cb, std::vector<Val>& a) {
        Val p = a[0];
        decodePtr(s, p);
        if (p.obj < 0) { Val z = Val::I(0, 64); finishCall(s, &z); return true; }
        Val vp = load(s, p, PointerType::get(ctx, 0));
        if (vp.obj < 0 || vp.sym) throw Unsupported{"dynamic_cast: vptr"};
        Val tip = vsub(vp, Val::I(8, 64));
        tip.obj = vp.obj;
        Val ti = load(s, tip, PointerType::get(ctx, 0));
        Val otp = vsub(vp, Val::I(16, 64));
        otp.obj = vp.obj;
        Val ot = load(s, otp, Type::getInt64Ty(ctx));
        if (ti.obj < 0 || ti.obj >= NG || ot.sym) throw Unsupported{"dynamic_cast: typeinfo"};
        std::string dn = gvs[ti.obj]->getName().str();
        auto* dst = dyn_cast<GlobalValue>(cb->getArgOperand(2)->stripPointerCasts());
        if (!dst) throw Unsupported{"dynamic_cast: target"};
        Val r = Val::I(0, 64);
        if (derives(dn, dst->getName().str())) {
            r = vadd(p, ot);
            r.obj = p.obj;
        }
        finishCall(s, &r);
        return true;
    }
