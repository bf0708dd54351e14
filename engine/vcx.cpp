// vcx: contract-based deductive verifier over LLVM IR of the real code.
#include "vcx.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <iostream>
#include <sstream>
#include <fstream>

using namespace llvm;

z3::context* ZC = nullptr;

static std::string demangleS(const std::string& n) { return llvm::demangle(n); }

static std::string qualOf(const std::string& dem) {
    // strip argument list: last top-level '(' ... handle "operator()"
    int depth = 0, tpl = 0;
    (void)tpl;
    std::string s = dem;
    // strip trailing " const" etc.
    size_t end = s.rfind(')');
    if (end == std::string::npos) return s;
    for (size_t i = end + 1; i-- > 0;) {
        if (s[i] == ')') depth++;
        if (s[i] == '(') {
            depth--;
            if (depth == 0) {
                s = s.substr(0, i);
                break;
            }
        }
    }
    // drop return type of templates: "void foo<int>"
    int d = 0;
    size_t cut = 0;
    size_t op = s.find("operator");
    for (size_t i = 0; i < s.size() && i < op; i++) {
        if (s[i] == '<' || s[i] == '(') d++;
        else if (s[i] == '>' || s[i] == ')') d--;
        else if (s[i] == ' ' && d == 0) cut = i + 1;
    }
    return s.substr(cut);
}

struct Opts {
    std::string bc, harness, out, tmp = "/tmp";
    bool bounded = false;
    unsigned unroll = 0;
    unsigned time = 600;
    unsigned maxPaths = 200000;
    unsigned ext = 60;
    bool trace = false;
};

class Engine {
public:
    Opts o;
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    Solver solver;
    std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fns;
    std::unordered_map<const GlobalValue*, int> gid;
    std::vector<const GlobalValue*> gvs;
    int NG = 0;
    std::map<std::string, Oblig> obligs;
    std::map<std::string, long> trusted;    // builtins / models used
    std::map<std::string, long> analysed;   // repo functions executed
    std::map<std::string, long> contracts;  // contract replacements used
    std::map<std::string, long> unsupported;
    std::map<std::string, long> bounded;  // cut loops
    std::map<std::string, long> covers, coversSeen;
    std::map<std::string, std::string> notes;
    std::map<std::string, Function*> replaceMap;  // qualified or full demangled
    std::set<std::string> unmodelled;             // classes reached only through the contracts given for them
    std::map<std::string, const GlobalVariable*> tiByName;
    std::map<std::string, LoopSpec*> specOwner;
    std::vector<std::unique_ptr<LoopSpec>> specs;
    // loop write sets: key spec -> set of (obj, off, n) ; n==0 -> whole object
    std::map<std::pair<LoopSpec*, int>, std::set<std::pair<uint64_t, uint64_t>>> wsets;
    bool needRestart = false;
    std::map<std::string, unsigned> wantLoops;  // declared but not attached
    long paths = 0, pathsDone = 0, instrs = 0;
    int freshN = 0;
    double t0 = 0;
    bool timedOut = false;
    State* cur = nullptr;
    unsigned unroll = 0;
    bool fpAny = false;
    uint64_t fpBound = 0;
    std::unordered_map<unsigned, std::pair<z3::expr, z3::expr>> truncOf;
    size_t loopHavocs = 0;

    // ------------------------------------------------------------------------------------------------------------
    std::string locOf(const Instruction* I) {
        if (!I) return "?";
        if (const DebugLoc& dl = I->getDebugLoc()) {
            DILocation* L = dl.get();
            std::string f = L->getFilename().str();
            size_t p = f.find("/repo/src/");
            if (p != std::string::npos) f = f.substr(p + 10);
            else {
                p = f.rfind('/');
                if (p != std::string::npos) f = f.substr(p + 1);
            }
            return f + ":" + std::to_string(L->getLine());
        }
        return "?";
    }
    FnInfo* info(const Function* F) {
        auto& p = fns[F];
        if (p) return p.get();
        p.reset(new FnInfo);
        p->F = const_cast<Function*>(F);
        p->dem = demangleS(F->getName().str());
        p->qual = qualOf(p->dem);
        unsigned n = 0;
        for (auto& a : F->args()) p->slot[&a] = n++;
        for (auto& bb : *F)
            for (auto& i : bb)
                if (!i.getType()->isVoidTy()) p->slot[&i] = n++;
        p->nslots = n;
        if (auto* sp = F->getSubprogram()) {
            p->file = sp->getFilename().str();
            std::string dir = sp->getDirectory().str();
            if (!p->file.empty() && p->file[0] != '/') p->file = dir + "/" + p->file;
            if (p->file.find("/repo/src") != std::string::npos || p->file.find("/repo/_build") != std::string::npos) p->isRepo = true;
        }
        return p.get();
    }
    std::map<std::string, unsigned> freshByName;
    Val fresh(unsigned w, const std::string& n) {
        std::string nm = n + "!" + std::to_string(freshN++);
        if (w == 1) return Val::S(Z.bool_const(nm.c_str()), 1);
        return Val::S(Z.bv_const(nm.c_str(), w), w);
    }
    NodeP funNode(const std::string& nm, unsigned es, std::shared_ptr<z3::func_decl>* fd = nullptr) {
        auto n = std::make_shared<Node>(Node::Fun);
        z3::sort d = Z.bv_sort(64), r = Z.bv_sort(8 * es);
        n->f = std::make_shared<z3::func_decl>(Z.function((nm + "!" + std::to_string(freshN++)).c_str(), d, r));
        n->es = es;
        if (fd) *fd = n->f;
        return n;
    }

    // ---- objects --------------------------------------------------------------------------------------------------
    ObjP& slotFor(State& s, int id) {
        if (id < NG) {
            auto it = s.g.find(id);
            if (it == s.g.end()) it = s.g.emplace(id, makeGlobal(gvs[id])).first;
            return it->second;
        }
        return s.heap[id - NG];
    }
    bool exists(State& s, int id) { return id < NG ? true : (size_t)(id - NG) < s.heap.size(); }
    const Obj* rd(State& s, int id) { return slotFor(s, id).get(); }
    Obj* wr(State& s, int id) {
        ObjP& p = slotFor(s, id);
        if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
        return p.get();
    }
    int newObj(State& s, Val size, Obj::Kind k, const std::string& name, NodeP base) {
        auto o2 = std::make_shared<Obj>();
        o2->kind = k;
        o2->size = size;
        o2->name = name;
        o2->chain = base;
        s.heap.push_back(o2);
        return NG + (int)s.heap.size() - 1;
    }
    NodeP zeroNode() {
        static NodeP z = std::make_shared<Node>(Node::Zero);
        return z;
    }
    ObjP makeGlobal(const GlobalValue* gv) {
        auto ob = std::make_shared<Obj>();
        ob->name = gv->getName().str();
        if (isa<Function>(gv)) {
            ob->kind = Obj::Func;
            ob->size = Val::I(1, 64);
            ob->chain = zeroNode();
            return ob;
        }
        auto* g = dyn_cast<GlobalVariable>(gv);
        if (!g || !g->hasInitializer()) {
            ob->kind = Obj::Extern;
            ob->size = Val::I(1 << 20, 64);
            ob->chain = funNode("ext_" + ob->name, 1);
            trusted["external global " + demangleS(ob->name)]++;
            return ob;
        }
        ob->kind = Obj::Global;
        ob->readonly = g->isConstant();
        uint64_t sz = DL->getTypeAllocSize(g->getValueType());
        ob->size = Val::I(sz, 64);
        ob->chain = zeroNode();
        const Constant* init = g->getInitializer();
        if (auto* cda = dyn_cast<ConstantDataSequential>(init)) {
            auto n = std::make_shared<Node>(Node::Const);
            StringRef raw = cda->getRawDataValues();
            n->bytes = std::make_shared<std::vector<uint8_t>>(raw.begin(), raw.end());
            n->es = cda->getElementByteSize();
            ob->es = 1;
            ob->chain = n;
        }
        else
            flatten(init, 0, ob.get());
        return ob;
    }
    void flatten(const Constant* c, uint64_t off, Obj* ob) {
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
        Type* t = c->getType();
        if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
            unsigned es = cds->getElementByteSize();
            for (unsigned i = 0; i < cds->getNumElements(); i++) flatten(cds->getElementAsConstant(i), off + i * es, ob);
            return;
        }
        if (isa<ConstantStruct>(c)) {
            const StructLayout* sl = DL->getStructLayout(cast<StructType>(t));
            for (unsigned i = 0; i < c->getNumOperands(); i++)
                flatten(cast<Constant>(c->getOperand(i)), off + sl->getElementOffset(i), ob);
            return;
        }
        if (isa<ConstantArray>(c)) {
            uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
            for (unsigned i = 0; i < c->getNumOperands(); i++) flatten(cast<Constant>(c->getOperand(i)), off + i * es, ob);
            return;
        }
        Val v = constVal(c);
        unsigned n = DL->getTypeStoreSize(t);
        if (v.w == 1) v = vzext(v, 8);
        ob->cells[off] = Cell{v, n};
    }
    Val gptr(const GlobalValue* g) {
        while (auto* a = dyn_cast<GlobalAlias>(g)) {
            const Constant* c = a->getAliasee()->stripPointerCasts();
            if (auto* gg = dyn_cast<GlobalValue>(c)) g = gg;
            else break;
        }
        return Val::P(gid.at(g), Val::I(0, 64));
    }
    Val constVal(const Constant* c) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            const APInt& a = ci->getValue();
            u128 v = a.getRawData()[0];
            if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
            if (a.getBitWidth() > 128) throw Unsupported{"wide int constant"};
            return Val::I(v, a.getBitWidth());
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APInt a = cf->getValueAPF().bitcastToAPInt();
            if (a.getBitWidth() > 64) throw Unsupported{"fp80 constant"};
            Val v = Val::I(a.getZExtValue(), a.getBitWidth());
            v.k = Val::FP;
            return v;
        }
        if (isa<ConstantPointerNull>(c)) return Val::I(0, 64);
        if (auto* g = dyn_cast<GlobalValue>(c)) return gptr(g);
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            Type* t = c->getType();
            if (t->isAggregateType()) {
                Val v;
                v.k = Val::Agg;
                unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
                v.agg = std::make_shared<std::vector<Val>>();
                for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i)));
                return v;
            }
            if (t->isFloatingPointTy()) {
                Val v = Val::I(0, t->getScalarSizeInBits());
                v.k = Val::FP;
                return v;
            }
            return Val::I(0, t->isPointerTy() ? 64 : t->getScalarSizeInBits());
        }
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
            Val v;
            v.k = Val::Agg;
            Type* t = c->getType();
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            v.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i)));
            return v;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    auto* gep = cast<GEPOperator>(ce);
                    if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
                    Val b = constVal(cast<Constant>(gep->getPointerOperand()));
                    int ob = b.obj;
                    Val r = vadd(b, Val::I(off.getZExtValue(), 64));
                    r.obj = ob;
                    return r;
                }
                case Instruction::BitCast:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::AddrSpaceCast: {
                    Val v = constVal(ce->getOperand(0));
                    unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getScalarSizeInBits();
                    if (v.w == w) return v;
                    return vtrunc(flat(v), w);
                }
                case Instruction::Sub:
                case Instruction::Add: {
                    Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                    return ptrArith(ce->getOpcode(), a, b);
                }
                case Instruction::Trunc: return vtrunc(flat(constVal(ce->getOperand(0))), ce->getType()->getScalarSizeInBits());
                case Instruction::ICmp: {
                    Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                    return cmpPtr((CmpInst::Predicate)ce->getPredicate(), a, b);
                }
                default: throw Unsupported{"constexpr"};
            }
        }
        throw Unsupported{"constant kind"};
    }
    Val ptrArith(unsigned op, const Val& a, const Val& b) {
        if (op == Instruction::Add) {
            if (a.obj >= 0 && b.obj < 0) { Val r = vadd(a, b); r.obj = a.obj; return r; }
            if (b.obj >= 0 && a.obj < 0) { Val r = vadd(a, b); r.obj = b.obj; return r; }
        }
        if (op == Instruction::Sub) {
            if (a.obj >= 0 && b.obj == a.obj) { Val x = a, y = b; x.obj = y.obj = -1; return vsub(x, y); }
            if (a.obj >= 0 && b.obj < 0) { Val r = vsub(a, b); r.obj = a.obj; return r; }
        }
        if (op == Instruction::And && a.obj >= 0 && !b.sym && b.c <= 0xfff && b.c < 16) {
            // low bits: objects are 16-byte aligned
            Val x = a;
            x.obj = -1;
            return vbin(op, x, b);
        }
        return vbin(op, flat(a), flat(b));
    }
    Val cmpPtr(CmpInst::Predicate p, const Val& a, const Val& b) {
        if (a.obj == b.obj) {
            Val x = a, y = b;
            x.obj = y.obj = -1;
            return vcmp(p, x, y);
        }
        if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
            // distinct objects (or null): different addresses, unless an integer address is compared
            bool known = (a.obj >= 0 && b.obj >= 0) || (a.obj >= 0 && !b.sym && b.c == 0) || (b.obj >= 0 && !a.sym && a.c == 0);
            if (known) return Val::I(p == CmpInst::ICMP_NE, 1);
        }
        if (a.obj >= 0 && b.obj >= 0) {
            // order of distinct objects: allocation order (assumption), offsets are small
            return vcmp(p, Val::I(addrBase(a.obj), 64), Val::I(addrBase(b.obj), 64));
        }
        return vcmp(p, flat(a), flat(b));
    }

    // ---- decisions -------------------------------------------------------------------------------------------------
    bool evalModel(State& s, const z3::expr& c, bool& r) {
        if (!s.model) return false;
        z3::expr v = s.model->eval(c, true);
        if (v.is_true()) { r = true; return true; }
        if (v.is_false()) { r = false; return true; }
        return false;
    }
    // 1: always true, 0: always false, -1: both possible / unknown
    int must(State& s, const z3::expr& c0) {
        z3::expr c = c0.simplify();
        if (c.is_true()) return 1;
        if (c.is_false()) return 0;
        if (s.decided) {
            auto it = s.decided->find(c.id());
            if (it != s.decided->end()) return it->second.second;
        }
        bool mv, have = evalModel(s, c, mv);
        Res rt = SAT, rf = SAT;
        if (!have || !mv) rt = solver.feas(s.pc, c, nullptr);
        if (rt == UNSAT) { remember(s, c, false); return 0; }
        if (!have || mv) rf = solver.feas(s.pc, !c, nullptr);
        if (rf == UNSAT) { remember(s, c, true); return 1; }
        return -1;
    }
    void remember(State& s, const z3::expr& c, bool v) {
        if (!s.decided) s.decided = std::make_shared<std::unordered_map<unsigned, std::pair<z3::expr, bool>>>();
        else if (s.decided.use_count() > 1)
            s.decided = std::make_shared<std::unordered_map<unsigned, std::pair<z3::expr, bool>>>(*s.decided);
        s.decided->emplace(c.id(), std::make_pair(c, v));
    }
    bool decide(State& s, const Val& v) {
        if (!v.sym) return v.c & 1;
        z3::expr c = v.e.simplify();
        if (c.is_true()) return true;
        if (c.is_false()) return false;
        if (s.decided) {
            auto it = s.decided->find(c.id());
            if (it != s.decided->end()) return it->second.second;
        }
        throw Fork{c};
    }
    void addPC(State& s, const z3::expr& c) {
        z3::expr e = c.simplify();
        if (e.is_true()) return;
        if (e.is_app() && e.decl().decl_kind() == Z3_OP_AND) {
            for (unsigned i = 0; i < e.num_args(); i++) s.pc.push_back(e.arg(i));
            remember(s, e, true);
        }
        else {
            s.pc.push_back(e);
            remember(s, e, true);
            if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) remember(s, e.arg(0), false);
        }
        if (s.model) {
            bool r;
            if (!evalModel(s, e, r) || !r) s.model.reset();
        }
    }
    void assume(State& s, const Val& v) {
        if (!v.sym) {
            if (!(v.c & 1)) throw PathEnd{"assume"};
            return;
        }
        z3::expr c = v.e.simplify();
        if (c.is_true()) return;
        if (c.is_false()) throw PathEnd{"assume"};
        addPC(s, c);
        if (!s.model) {
            ModelP m;
            Res r = solver.feas(s.pc, Z.bool_val(true), &m);
            if (r == UNSAT) throw PathEnd{"assume"};
            if (r == SAT) s.model = m;
            else s.unkFeas = true;
        }
    }

    // ---- obligations -----------------------------------------------------------------------------------------------
    Oblig& ob(const std::string& kind, const std::string& name, const std::string& loc) {
        std::string key = kind + "|" + name + "|" + loc;
        Oblig& x = obligs[key];
        x.kind = kind;
        x.name = name;
        x.loc = loc;
        x.inst++;
        return x;
    }
    std::string evalHex(z3::model& m, const Val& v0) {
        Val v = flat(asInt(v0));
        u128 r = 0;
        if (!v.sym) r = v.c;
        else {
            z3::expr e = m.eval(TB(v), true);
            numeral(e, r);
        }
        char b[40];
        snprintf(b, sizeof b, "%llx", (unsigned long long)r);
        return b;
    }
    std::string modelText(State& s, z3::model& m) {
        std::ostringstream os;
        for (auto& in : s.inputs) {
            if (in.kind == 's') os << "s " << evalHex(m, in.v) << " " << in.name << "\n";
            else {
                u128 n = 0;
                if (!in.v.sym) n = in.v.c;
                else numeral(m.eval(T(in.v), true), n);
                if (n > 65536) { os << "toolarge " << in.name << "\n"; continue; }
                os << "a " << (unsigned long long)n << " " << in.es << " " << in.name << " ";
                for (uint64_t i = 0; i < (uint64_t)n; i++) {
                    z3::expr e = m.eval((*in.f)(Z.bv_val((uint64_t)(i * in.es), 64)), true);
                    u128 v = 0;
                    numeral(e, v);
                    char b[20];
                    for (unsigned k = 0; k < in.es; k++) {
                        snprintf(b, sizeof b, "%02x", (unsigned)(v >> (8 * k)) & 255);
                        os << b;
                    }
                }
                os << "\n";
            }
        }
        return os.str();
    }
    // try to get a model with small sizes
    ModelP smallModel(State& s, const z3::expr& neg, ModelP m) {
        std::vector<z3::expr> sizes;
        for (auto& in : s.inputs)
            if (in.v.sym && (in.kind == 'a' || in.isSize)) sizes.push_back(T(in.v));
        if (sizes.empty()) return m;
        for (uint64_t lim : {8ull, 40ull, 300ull, 5000ull, 65536ull}) {
            z3::expr_vector v(Z);
            v.push_back(neg);
            for (auto& x : sizes) v.push_back(z3::ule(x, Z.bv_val((uint64_t)lim, x.get_sort().bv_size())));
            ModelP mm;
            solver.sync(s.pc);
            z3::solver sv(Z);
            for (auto& p : s.pc) sv.add(p);
            sv.add(z3::mk_and(v));
            if (solver.z3check(sv, 5000, "z3-minimise", &mm) == SAT) return mm;
        }
        return m;
    }
    void recordFail(State& s, Oblig& x, ModelP m, const z3::expr* neg) {
        x.failed++;
        if (!x.replay.empty()) return;
        if (m && neg) m = smallModel(s, *neg, m);
        if (m) x.replay = modelText(s, *m);
        else x.replay = "nomodel\n";
    }
    // returns false when the path must end
    bool check(State& s, const Val& cond, const std::string& kind, const std::string& name, const std::string& loc) {
        Oblig& x = ob(kind, name, loc);
        if (!cond.sym && (cond.c & 1)) {
            x.discharged++;
            x.trivial++;
            return true;
        }
        z3::expr c = cond.sym ? cond.e.simplify() : Z.bool_val((cond.c & 1) != 0);
        if (c.is_true()) {
            x.discharged++;
            x.trivial++;
            return true;
        }
        if (s.decided) {
            auto it = s.decided->find(c.id());
            if (it != s.decided->end() && it->second.second) {
                x.discharged++;
                return true;
            }
        }
        double ta = now();
        Res r = UNK;
        ModelP m;
        z3::expr neg = (!c).simplify();
        if (c.is_false()) {
            r = solver.full(s.pc, Z.bool_val(true), &m);
        }
        else {
            // conjunctions are split into separate queries
            std::vector<z3::expr> parts;
            if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND)
                for (unsigned i = 0; i < c.num_args(); i++) parts.push_back(c.arg(i));
            else parts.push_back(c);
            r = UNSAT;
            for (auto& p : parts) {
                Res q = solver.full(s.pc, !p, &m);
                if (q == SAT) { r = SAT; break; }
                if (q == UNK) r = UNK;
            }
        }
        x.ms += (now() - ta) * 1000;
        if (r == UNSAT) {
            x.discharged++;
            if (c.is_false()) throw PathEnd{"infeasible"};
            addPC(s, c);
            return true;
        }
        if (r == SAT) recordFail(s, x, m, &neg);
        else x.unknown++;
        if (c.is_false()) return false;
        // continue under the assumption that it held
        ModelP m2;
        Res q = solver.feas(s.pc, c, &m2);
        if (q == UNSAT) return false;
        addPC(s, c);
        if (m2) s.model = m2;
        return true;
    }
    void failHere(State& s, const std::string& kind, const std::string& name, const std::string& loc) {
        check(s, Val::I(0, 1), kind, name, loc);
        throw PathEnd{name};
    }

    // ---- memory ----------------------------------------------------------------------------------------------------
    const Instruction* curI(State& s) { return s.st.empty() ? nullptr : s.st.back().ip; }
    // nearest instruction with location
    std::string curLoc(State& s) {
        for (size_t i = s.st.size(); i-- > 0;) {
            std::string l = locOf(s.st[i].ip);
            if (l != "?") return l;
        }
        return "?";
    }
    void decodePtr(State& s, Val& p) {
        if (p.obj >= 0 || p.sym) return;
        uint64_t a = p.u64() >> 40;
        if (a == 0) return;
        int id = (int)a - 1;
        if (id < 0 || !exists(s, id)) return;
        p = Val::P(id, Val::I(p.c & 0xffffffffffull, 64));
    }
    // access check; returns the object id
    int access(State& s, Val& p, const Val& n, const char* what, bool write) {
        decodePtr(s, p);
        std::string loc = curLoc(s);
        if (p.obj < 0) {
            if (!n.sym && n.c == 0) return -1;
            if (n.sym) {
                Val z = vcmp(CmpInst::ICMP_EQ, n, Val::I(0, 64));
                if (check(s, z, "memory", std::string("null/invalid pointer ") + what, loc)) return -1;
                throw PathEnd{"null"};
            }
            failHere(s, "memory", std::string("null/invalid pointer ") + what, loc);
        }
        if (!exists(s, p.obj) || !slotFor(s, p.obj)) failHere(s, "memory", std::string("use after free ") + what, loc);
        const Obj* ob = rd(s, p.obj);
        if (ob->kind == Obj::Func) failHere(s, "memory", std::string("access to code ") + what, loc);
        if (write && ob->readonly) failHere(s, "memory", "write to read-only object", loc);
        Val off = p;
        off.obj = -1;
        const Val& sz = ob->size;
        if (!off.sym && !n.sym && !sz.sym) {
            if (!(off.c <= sz.c && n.c <= sz.c - off.c)) failHere(s, "memory", std::string("out of bounds ") + what, loc);
            return p.obj;
        }
        z3::expr O = T(off), N = T(n), S = T(sz);
        z3::expr c = (z3::ule(O, S) && z3::ule(N, S - O));
        if (!check(s, Val::S(c.simplify(), 1), "memory", std::string("in bounds ") + what, loc)) throw PathEnd{"oob"};
        return p.obj;
    }
    Val nodeByte(State& s, const Node* nd, const Val& off);
    Val readByte(State& s, const Cells* cells, const Node* chain, const Val& off) {
        if (cells && !cells->empty()) {
            if (!off.sym) {
                uint64_t a = off.u64();
                auto it = cells->upper_bound(a);
                if (it != cells->begin()) {
                    --it;
                    if (a >= it->first && a < it->first + it->second.n) return vextractByte(it->second.v, a - it->first);
                }
                return nodeByte(s, chain, off);
            }
            Val r = nodeByte(s, chain, off);
            for (auto& c : *cells) {
                for (unsigned i = 0; i < c.second.n; i++) {
                    z3::expr eq = (off.e == Z.bv_val((uint64_t)(c.first + i), 64));
                    int mm = cells->size() > 16 ? -1 : must(s, eq);
                    if (mm == 0) continue;
                    Val b = vextractByte(c.second.v, i);
                    if (mm == 1) return b;
                    r = vite(Val::S(eq, 1), b, r);
                }
            }
            return r;
        }
        return nodeByte(s, chain, off);
    }
    // off - base as a concrete difference, if syntactically evident
    bool cdiff(const Val& a, const Val& b, int64_t& d) {
        if (!a.sym && !b.sym) { d = (int64_t)(a.u64() - b.u64()); return true; }
        if (a.sym != b.sym) return false;
        z3::expr x(Z), y(Z);
        u128 cx, cy;
        splitAdd(a.e, x, cx);
        splitAdd(b.e, y, cy);
        if (z3::eq(x, y)) { d = (int64_t)(uint64_t)(cx - cy); return true; }
        z3::expr df = (a.e - b.e).simplify();
        u128 v;
        if (numeral(df, v)) { d = (int64_t)(uint64_t)v; return true; }
        return false;
    }
    Val readMem(State& s, const Cells* cells, const Node* chain, unsigned es, const Val& off0, unsigned n) {
        Val off = off0;
        off.obj = -1;
        if (cells && !cells->empty()) {
            if (!off.sym) {
                uint64_t a = off.u64();
                auto it = cells->lower_bound(a);
                bool touch = false;
                if (it != cells->end() && it->first == a && it->second.n == n) return it->second.v;
                auto j = cells->upper_bound(a);
                if (j != cells->begin()) {
                    auto k = std::prev(j);
                    if (a < k->first + k->second.n) touch = true;
                    if (touch && a >= k->first && a + n <= k->first + k->second.n) {
                        // inside one cell
                        Val v = flat(asInt(k->second.v));
                        unsigned sh = (a - k->first) * 8;
                        if (!v.sym) return Val::I(v.c >> sh, 8 * n);
                        if (v.w >= sh + 8 * n) return Val::S(v.e.extract(sh + 8 * n - 1, sh).simplify(), 8 * n);
                    }
                }
                if (!touch && j != cells->end() && j->first < a + n) touch = true;
                if (touch) {
                    std::vector<Val> b;
                    for (unsigned i = 0; i < n; i++) b.push_back(readByte(s, cells, chain, Val::I(a + i, 64)));
                    return vconcatBytes(b);
                }
                return nodeRead(s, chain, es, off, n);
            }
            // symbolic offset over cells: homogeneous cells of width n -> ite over cells
            bool homo = true;
            for (auto& c : *cells)
                if (c.second.n != n || c.second.v.k == Val::Agg) homo = false;
            if (homo && cells->size() <= 1024) {
                // is the access aligned to the cells?
                uint64_t a0 = cells->begin()->first % n;
                bool al = true;
                for (auto& c : *cells)
                    if (c.first % n != a0) al = false;
                if (al && n > 1) al = must(s, z3::urem(off.e - bvval(a0, 64), bvval(n, 64)) == bvval(0, 64)) == 1;
                if (al) {
                    bool ptr = false;
                    for (auto& c : *cells)
                        if (c.second.v.isPtr()) ptr = true;
                    if (ptr) {
                        for (auto& c : *cells)
                            if (decide(s, Val::S((off.e == bvval(c.first, 64)).simplify(), 1))) return c.second.v;
                        return nodeRead(s, chain, es, off, n);
                    }
                    Val r;
                    bool haveR = false;
                    // is the range completely covered?
                    uint64_t lo = cells->begin()->first, hi = cells->rbegin()->first;
                    bool contiguous = (hi - lo) / n + 1 == cells->size();
                    if (contiguous && must(s, z3::uge(off.e, bvval(lo, 64)) && z3::ule(off.e, bvval(hi, 64))) == 1) haveR = true;
                    auto it = cells->begin();
                    if (haveR) { r = it->second.v; ++it; }
                    else r = nodeRead(s, chain, es, off, n);
                    for (; it != cells->end(); ++it) {
                        Val v = it->second.v;
                        r = asInt(r);
                        v = asInt(v);
                        r = vite(Val::S(off.e == bvval(it->first, 64), 1), v, r);
                    }
                    return r;
                }
            }
            if (n > 1) {
                // pointer cells reachable? decide exact offsets
                for (auto& c : *cells)
                    if (c.second.n == n && c.second.v.isPtr()) {
                        Val eq = Val::S((off.e == bvval(c.first, 64)).simplify(), 1);
                        int mm = eq.sym ? must(s, eq.e) : (int)eq.c;
                        if (mm == 1) return c.second.v;
                        if (mm == 0) continue;
                        if (decide(s, eq)) return c.second.v;
                    }
                std::vector<Val> b;
                for (unsigned i = 0; i < n; i++) b.push_back(readByte(s, cells, chain, vadd(off, Val::I(i, 64))));
                return vconcatBytes(b);
            }
            return readByte(s, cells, chain, off);
        }
        return nodeRead(s, chain, es, off, n);
    }
    Val nodeRead(State& s, const Node* nd, unsigned es, const Val& off, unsigned n);
    Val constTable(State& s, const Node* nd, const Val& off, unsigned n) {
        const auto& b = *nd->bytes;
        auto get = [&](uint64_t a) {
            u128 v = 0;
            for (unsigned i = 0; i < n; i++)
                if (a + i < b.size()) v |= (u128)b[a + i] << (8 * i);
            return v;
        };
        if (!off.sym) return Val::I(get(off.u64()), 8 * n);
        unsigned st = nd->es;
        bool al = n % st == 0 && st == n;
        if (al && n > 1) al = must(s, z3::urem(off.e, bvval(n, 64)) == bvval(0, 64)) == 1;
        unsigned step = al ? n : 1;
        uint64_t cnt = b.size() / step;
        if (cnt > 4096) throw Unsupported{"symbolic index in large table"};
        z3::expr r = bvval(get(0), 8 * n);
        // run-length: merge equal neighbours
        u128 prev = get(0);
        z3::expr idx = off.e;
        std::vector<std::pair<uint64_t, u128>> runs;
        for (uint64_t i = 1; i < cnt; i++) {
            u128 v = get(i * step);
            if (v != prev) runs.push_back({i * step, v});
            prev = v;
        }
        for (auto& q : runs) r = z3::ite(z3::uge(idx, bvval(q.first, 64)), bvval(q.second, 8 * n), r);
        return Val::S(r, 8 * n);
    }
    void noteWrite(State& s, int obj, const Val& off, const Val& n, const Val* v) {
        for (auto& f : s.st)
            for (auto& al : f.loops) {
                if (obj >= NG && (size_t)(obj - NG) >= al.heapLimit) continue;
                auto& ws = wsets[{al.spec, obj}];
                uint64_t a = 0, len = 0;
                if (!off.sym && !n.sym) { a = off.u64(); len = n.u64(); }
                if (ws.count({0, 0})) continue;
                if (len == 0 || len > 64) {
                    ws.clear();
                    ws.insert({0, 0});
                    needRestart = true;
                    continue;
                }
                bool cov = false;
                for (auto& r : ws)
                    if (a >= r.first && a + len <= r.first + r.second) cov = true;
                if (!cov) {
                    ws.insert({a, len});
                    needRestart = true;
                }
            }
    }
    void dropCells(Obj* ob, uint64_t a, uint64_t n) {
        auto it = ob->cells.upper_bound(a);
        if (it != ob->cells.begin()) --it;
        std::vector<std::pair<uint64_t, Cell>> add;
        while (it != ob->cells.end() && it->first < a + n) {
            uint64_t s0 = it->first, e0 = s0 + it->second.n;
            if (e0 <= a) { ++it; continue; }
            for (uint64_t x = s0; x < e0; x++)
                if (x < a || x >= a + n) add.push_back({x, Cell{vextractByte(it->second.v, x - s0), 1}});
            it = ob->cells.erase(it);
        }
        for (auto& x : add) ob->cells[x.first] = x.second;
    }
    void flush(Obj* ob) {
        for (auto& c : ob->cells) {
            auto nd = std::make_shared<Node>(Node::Store);
            nd->off = Val::I(c.first, 64);
            nd->n = c.second.n;
            nd->v = c.second.v;
            nd->next = ob->chain;
            ob->chain = nd;
        }
        ob->cells.clear();
    }
    void writeMem(State& s, int obj, const Val& off0, unsigned n, Val v) {
        Val off = off0;
        off.obj = -1;
        if (v.w == 1 && v.k == Val::Int) v = vzext(v, 8);
        noteWrite(s, obj, off, Val::I(n, 64), &v);
        Obj* ob = wr(s, obj);
        if (!off.sym) {
            uint64_t a = off.u64();
            auto it = ob->cells.find(a);
            if (it != ob->cells.end() && it->second.n == n) it->second.v = v;
            else {
                dropCells(ob, a, n);
                ob->cells[a] = Cell{v, n};
            }
            return;
        }
        flush(ob);
        auto nd = std::make_shared<Node>(Node::Store);
        nd->off = off;
        nd->n = n;
        nd->v = v;
        nd->next = ob->chain;
        ob->chain = nd;
    }
    void copyMem(State& s, int dob, Val doff, int sob, Val soff, Val len) {
        doff.obj = soff.obj = -1;
        if (!len.sym && len.c == 0) return;
        noteWrite(s, dob, doff, len, nullptr);
        if (!len.sym && !doff.sym && !soff.sym && len.c <= 4096) {
            const Obj* so = rd(s, sob);
            uint64_t a = soff.u64(), n = len.u64(), d = doff.u64();
            std::vector<std::pair<uint64_t, Cell>> out;
            uint64_t x = a;
            while (x < a + n) {
                auto it = so->cells.lower_bound(x);
                if (it != so->cells.end() && it->first == x && x + it->second.n <= a + n) {
                    out.push_back({x - a + d, it->second});
                    x += it->second.n;
                    continue;
                }
                // distance to next cell start / end of a straddling cell
                bool inside = false;
                if (it != so->cells.begin()) {
                    auto k = std::prev(it);
                    if (x < k->first + k->second.n) inside = true;
                }
                if (inside || (it != so->cells.end() && it->first == x)) {
                    out.push_back({x - a + d, Cell{readByte(s, &so->cells, so->chain.get(), Val::I(x, 64)), 1}});
                    x++;
                    continue;
                }
                uint64_t lim = a + n;
                if (it != so->cells.end() && it->first < lim) lim = it->first;
                unsigned es = std::max(1u, so->es);
                unsigned chunk = 1;
                if (es > 1 && x % es == 0 && x + es <= lim) chunk = es;
                else if (so->chain->t == Node::Zero) chunk = std::min<uint64_t>(8, lim - x);
                else if (so->chain->t == Node::Store || so->chain->t == Node::Copy) {
                    if (lim - x >= 8 && x % 8 == 0) chunk = 8;
                    else if (lim - x >= 4 && x % 4 == 0) chunk = 4;
                }
                out.push_back({x - a + d, Cell{readMem(s, &so->cells, so->chain.get(), so->es, Val::I(x, 64), chunk), chunk}});
                x += chunk;
            }
            Obj* dO = wr(s, dob);
            dropCells(dO, d, n);
            for (auto& c : out) dO->cells[c.first] = c.second;
            return;
        }
        const Obj* so = rd(s, sob);
        auto sn = std::make_shared<Snap>();
        sn->cells = so->cells;
        sn->chain = so->chain;
        sn->es = so->es;
        Obj* dO = wr(s, dob);
        // copying the complete object: share the content
        flush(dO);
        auto nd = std::make_shared<Node>(Node::Copy);
        nd->off = doff;
        nd->len = len;
        nd->src = sn;
        nd->soff = soff;
        nd->next = dO->chain;
        dO->chain = nd;
    }
    void setMem(State& s, int dob, Val doff, Val byte, Val len) {
        doff.obj = -1;
        if (!len.sym && len.c == 0) return;
        noteWrite(s, dob, doff, len, nullptr);
        Obj* d = wr(s, dob);
        if (!len.sym && !doff.sym && !d->size.sym && doff.c == 0 && len.c == d->size.c && !byte.sym && byte.c == 0) {
            d->cells.clear();
            d->chain = zeroNode();
            return;
        }
        if (!len.sym && !doff.sym && len.c <= 512) {
            uint64_t a = doff.u64(), n = len.u64();
            dropCells(d, a, n);
            unsigned es = std::max(1u, d->es);
            for (uint64_t x = 0; x < n;) {
                unsigned chunk = 1;
                if (!byte.sym) {
                    chunk = (n - x >= 8 && (a + x) % 8 == 0) ? 8 : (n - x >= 4 && (a + x) % 4 == 0) ? 4 : 1;
                    if (es > 1 && chunk > es) chunk = es;
                }
                u128 v = 0;
                if (!byte.sym)
                    for (unsigned i = 0; i < chunk; i++) v |= (byte.c & 255) << (8 * i);
                d->cells[a + x] = Cell{byte.sym ? byte : Val::I(v, 8 * chunk), chunk};
                x += chunk;
            }
            return;
        }
        flush(d);
        auto nd = std::make_shared<Node>(Node::Set);
        nd->off = doff;
        nd->len = len;
        nd->v = byte;
        nd->next = d->chain;
        d->chain = nd;
    }
    void havocMem(State& s, int obj, Val off, Val len, const std::string& nm) {
        off.obj = -1;
        noteWrite(s, obj, off, len, nullptr);
        Obj* d = wr(s, obj);
        if (!off.sym && !len.sym && len.c <= 64) {
            // per existing cell, to preserve granularity
            uint64_t a = off.u64(), n = len.u64();
            std::vector<std::pair<uint64_t, unsigned>> parts;
            uint64_t x = a;
            while (x < a + n) {
                auto it = d->cells.find(x);
                if (it != d->cells.end() && x + it->second.n <= a + n) {
                    parts.push_back({x, it->second.n});
                    x += it->second.n;
                }
                else {
                    unsigned ch = (x % 8 == 0 && a + n - x >= 8) ? 8 : (x % 4 == 0 && a + n - x >= 4) ? 4 : 1;
                    parts.push_back({x, ch});
                    x += ch;
                }
            }
            for (auto& p : parts) {
                Val old;
                auto it = d->cells.find(p.first);
                if (it != d->cells.end() && it->second.n == p.second) old = it->second.v;
                Val nv = fresh(8 * p.second, nm);
                if (old.k == Val::FP) nv.k = Val::FP;
                if (old.isPtr()) nv.obj = old.obj;
                if (it == d->cells.end() || it->second.n != p.second) dropCells(d, p.first, p.second);
                d->cells[p.first] = Cell{nv, p.second};
            }
            return;
        }
        auto sn = std::make_shared<Snap>();
        sn->chain = funNode(nm, d->es);
        sn->es = d->es;
        if (!off.sym && !len.sym && !d->size.sym && off.c == 0 && len.c == d->size.c) {
            d->cells.clear();
            d->chain = sn->chain;
            return;
        }
        flush(d);
        auto nd = std::make_shared<Node>(Node::Copy);
        nd->off = off;
        nd->len = len;
        nd->src = sn;
        nd->soff = off;
        nd->next = d->chain;
        d->chain = nd;
    }
    void havocWhole(State& s, int obj, const std::string& nm) {
        Obj* d = wr(s, obj);
        // struct-like objects holding pointers cannot be havocked as a whole
        for (auto& c : d->cells)
            if (c.second.v.isPtr()) throw Unsupported{"loop havocs an object holding pointers"};
        d->cells.clear();
        d->chain = funNode(nm, d->es);
    }
    Val load(State& s, Val p, Type* t) {
        if (t->isStructTy() || t->isArrayTy()) {
            Val v;
            v.k = Val::Agg;
            v.agg = std::make_shared<std::vector<Val>>();
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) {
                uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i)
                                               : i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType());
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                int ob = p.obj;
                Val q = vadd(p, Val::I(off, 64));
                q.obj = ob;
                v.agg->push_back(load(s, q, et));
            }
            return v;
        }
        unsigned n = DL->getTypeStoreSize(t);
        if (n > 16 || t->isVectorTy()) throw Unsupported{"wide load"};
        int obj = access(s, p, Val::I(n, 64), "read", false);
        const Obj* ob = rd(s, obj);
        Val v = readMem(s, &ob->cells, ob->chain.get(), ob->es, p, n);
        if (t->isFloatingPointTy()) {
            if (n > 8) throw Unsupported{"fp80"};
            return asFP(v);
        }
        v = asInt(v);
        unsigned w = t->isPointerTy() ? 64 : t->getScalarSizeInBits();
        if (v.w != w) v = vtrunc(v, w);
        return v;
    }
    void store(State& s, Val p, const Val& v, Type* t) {
        if (t->isStructTy() || t->isArrayTy()) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) {
                uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i)
                                               : i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType());
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                int ob = p.obj;
                Val q = vadd(p, Val::I(off, 64));
                q.obj = ob;
                store(s, q, (*v.agg)[i], et);
            }
            return;
        }
        unsigned n = DL->getTypeStoreSize(t);
        if (n > 16 || t->isVectorTy()) throw Unsupported{"wide store"};
        int obj = access(s, p, Val::I(n, 64), "write", true);
        Val x = v;
        if (x.k == Val::Int && x.w != 8 * n && x.w != 1) x = vzext(x, 8 * n);
        writeMem(s, obj, p, n, x);
    }
    std::string cstr(State& s, Val p) {
        std::string r;
        decodePtr(s, p);
        if (p.obj < 0) return r;
        const Obj* ob = rd(s, p.obj);
        for (uint64_t i = 0; i < 4096; i++) {
            Val off = p;
            off.obj = -1;
            Val b = readByte(s, &ob->cells, ob->chain.get(), vadd(off, Val::I(i, 64)));
            if (b.sym) break;
            if (!b.c) break;
            r += (char)b.c;
        }
        return r;
    }

    // ---- typeinfo --------------------------------------------------------------------------------------------------
    bool derives(const std::string& d, const std::string& b, int depth = 0) {
        if (d == b) return true;
        if (depth > 20) return false;
        auto it = tiByName.find(d);
        if (it != tiByName.end() && it->second->hasInitializer()) {
            const Constant* c = it->second->getInitializer();
            for (unsigned i = 2; i < c->getNumOperands(); i++) {
                const Value* v = c->getOperand(i)->stripPointerCasts();
                if (auto* g = dyn_cast<GlobalVariable>(v))
                    if (g->getName().starts_with("_ZTI") && derives(g->getName().str(), b, depth + 1)) return true;
            }
            return false;
        }
        static const std::map<std::string, std::string> std_bases = {
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"},     {"_ZTISt12length_error", "_ZTISt11logic_error"},
            {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt11logic_error", "_ZTISt9exception"},         {"_ZTISt13runtime_error", "_ZTISt9exception"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"},    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
            {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},{"_ZTISt9bad_alloc", "_ZTISt9exception"},
            {"_ZTISt8bad_cast", "_ZTISt9exception"},             {"_ZTISt17bad_function_call", "_ZTISt9exception"},
            {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
            {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
        auto j = std_bases.find(d);
        if (j != std_bases.end()) return derives(j->second, b, depth + 1);
        return false;
    }
    int typeId(const Value* ti) {
        if (isa<ConstantPointerNull>(ti)) return 1;
        auto* g = dyn_cast<GlobalValue>(ti->stripPointerCasts());
        return 2 + gid.at(g);
    }

    // ---- calls -----------------------------------------------------------------------------------------------------
    void freeFrame(State& s, Frame& f) {
        for (int a : f.allocas) s.heap[a - NG].reset();
        while (!s.heap.empty() && !s.heap.back()) s.heap.pop_back();
    }
    void pushCall(State& s, Function* F, std::vector<Val> args, Hook h = HNone, LoopSpec* sp = nullptr) {
        if (s.st.size() > 400) throw Unsupported{"recursion depth"};
        FnInfo* fi = info(F);
        if (fi->isRepo) analysed[fi->dem]++;
        s.st.emplace_back();
        Frame& f = s.st.back();
        f.fi = fi;
        f.regs.resize(fi->nslots);
        for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f.regs[i] = args[i];
        // by-value aggregate arguments are copied by the callee's view of memory: byval attribute
        for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++) {
            if (F->hasParamAttribute(i, Attribute::ByVal)) {
                uint64_t n = DL->getTypeAllocSize(F->getParamByValType(i));
                int ob = newObj(s, Val::I(n, 64), Obj::Stack, "byval", zeroNode());
                Val src = args[i];
                int so = access(s, src, Val::I(n, 64), "read", false);
                copyMem(s, ob, Val::I(0, 64), so, src, Val::I(n, 64));
                s.st.back().regs[i] = Val::P(ob, Val::I(0, 64));
                s.st.back().allocas.push_back(ob);
            }
        }
        f.hook = h;
        f.spec = sp;
        f.bb = &F->getEntryBlock();
        f.ip = &f.bb->front();
    }
    Val get(State& s, const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
        Frame& f = s.st.back();
        auto it = f.fi->slot.find(v);
        if (it == f.fi->slot.end()) throw Unsupported{"value kind"};
        const Val& r = f.regs[it->second];
        if (r.k == Val::Undef) throw Unsupported{"undef register in " + f.fi->dem};
        return r;
    }
    void setReg(State& s, const Value* v, const Val& x) {
        Frame& f = s.st.back();
        f.regs[f.fi->slot.at(v)] = x;
    }
    void advance(State& s) {
        Frame& f = s.st.back();
        f.ip = f.ip->getNextNode();
    }
    void jump(State& s, const BasicBlock* to) {
        Frame& f = s.st.back();
        const BasicBlock* from = f.bb;
        std::vector<std::pair<unsigned, Val>> ph;
        for (auto& p : to->phis()) ph.push_back({f.fi->slot.at(&p), get(s, p.getIncomingValueForBlock(from))});
        for (auto& p : ph) f.regs[p.first] = p.second;
        f.bb = to;
        f.ip = to->getFirstNonPHI();
        while (!f.loops.empty() && !f.loops.back().spec->loop->contains(to)) f.loops.pop_back();
        auto it = f.fi->loopHdr.find(to);
        if (it != f.fi->loopHdr.end()) {
            LoopSpec* sp = it->second;
            bool back = sp->loop->contains(from);
            callInv(s, sp, back ? HInvBack : HInvEntry);
        }
    }
    void callInv(State& s, LoopSpec* sp, Hook h) {
        Frame& f = s.st.back();
        std::vector<Val> args;
        FnInfo* ii = info(sp->inv);
        (void)ii;
        for (auto& a : sp->inv->args()) {
            std::string n = argName(sp->inv, a.getArgNo());
            auto it = f.fi->locals.find(n == "self" ? "this" : n);
            if (it == f.fi->locals.end()) throw Unsupported{"loop invariant of " + sp->fn + " names unknown local '" + n + "'"};
            const Value* where = it->second;
            auto& all = f.fi->scoped[n];
            if (all.size() > 1) {   // several variables of this name: the one visible at the loop
                const DILocation* dl = sp->loop->getHeader()->getTerminator()->getDebugLoc();
                bool found = false;
                for (const DIScope* sc = dl ? dl->getScope() : nullptr; sc && !found; sc = sc->getScope()) {
                    if (auto* ls = dyn_cast<DILocalScope>(sc)) sc = ls->getNonLexicalBlockFileScope();
                    for (auto& c : all)
                        if (!found && c.first == sc) where = c.second, found = true;
                    if (isa<DISubprogram>(sc)) break;
                }
            }
            Val v = f.regs[f.fi->slot.at(where)];
            if (v.k == Val::Undef) throw Unsupported{"loop invariant of " + sp->fn + ": local '" + n + "' not live"};
            if (f.fi->indirect.count(n == "self" ? "this" : n)) v = load(s, v, PointerType::get(M->getContext(), 0));
            args.push_back(v);
        }
        pushCall(s, sp->inv, args, h, sp);
    }
    std::string argName(Function* F, unsigned no) {
        if (auto* sp = F->getSubprogram())
            for (auto* n : sp->getRetainedNodes())
                if (auto* v = dyn_cast<DILocalVariable>(n))
                    if (v->getArg() == no + 1) return v->getName().str();
        // fall back on dbg intrinsics
        for (auto& I : instructions(F)) {
            if (auto* d = dyn_cast<DbgVariableIntrinsic>(&I))
                if (d->getVariable()->getArg() == no + 1) return d->getVariable()->getName().str();
        }
        return F->getArg(no)->getName().str();
    }
    void havocLoop(State& s, LoopSpec* sp) {
        loopHavocs++;
        size_t lim = s.heap.size();
        for (auto& w : wsets) {
            if (w.first.first != sp) continue;
            int obj = w.first.second;
            if (obj >= NG && ((size_t)(obj - NG) >= lim || !s.heap[obj - NG])) continue;
            for (auto& r : w.second) {
                if (r.first == 0 && r.second == 0) havocWhole(s, obj, "loop");
                else havocMem(s, obj, Val::I(r.first, 64), Val::I(r.second, 64), "loop");
            }
        }
        s.st.back().loops.push_back({sp, lim});
    }
    void doReturn(State& s, const Val* rv) {
        Hook h = s.st.back().hook;
        LoopSpec* sp = s.st.back().spec;
        freeFrame(s, s.st.back());
        s.st.pop_back();
        if (h != HNone) {
            std::string nm = sp->fn + " loop " + std::to_string(sp->idx);
            if (h == HInvEntry) {
                if (!check(s, *rv, "invariant", "holds on entry: " + nm, "")) throw PathEnd{"inv"};
                havocLoop(s, sp);
                callInv(s, sp, HInvAssume);
                return;
            }
            if (h == HInvAssume) {
                assume(s, *rv);
                return;
            }
            check(s, *rv, "invariant", "preserved: " + nm, "");
            throw PathEnd{"inductive"};
        }
        if (s.st.empty()) throw PathEnd{"done"};
        finishCall(s, rv);
    }
    // top frame's ip is at the call; bind result and continue
    void finishCall(State& s, const Val* rv) {
        Frame& f = s.st.back();
        const Instruction* I = f.ip;
        if (!I->getType()->isVoidTy()) {
            if (!rv) throw Unsupported{"missing return value"};
            setReg(s, I, *rv);
        }
        if (auto* inv = dyn_cast<InvokeInst>(I)) jump(s, inv->getNormalDest());
        else advance(s);
    }
    void unwind(State& s) {
        // the exception propagates out of the instruction at the top frame's ip
        for (;;) {
            if (s.st.empty()) break;
            Frame& f = s.st.back();
            const Instruction* I = f.ip;
            if (auto* inv = dyn_cast<InvokeInst>(I)) {
                const LandingPadInst* lp = inv->getUnwindDest()->getLandingPadInst();
                int sel = -1;
                for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
                    if (!lp->isCatch(i)) { throw Unsupported{"exception filter"}; }
                    const Value* ti = lp->getClause(i)->stripPointerCasts();
                    if (isa<ConstantPointerNull>(ti)) sel = 1;
                    else {
                        std::string b = cast<GlobalValue>(ti)->getName().str();
                        std::string d = cast<GlobalValue>(s.excTI->stripPointerCasts())->getName().str();
                        if (derives(d, b)) sel = typeId(ti);
                    }
                }
                if (sel >= 0 || lp->isCleanup()) {
                    if (sel < 0) sel = 0;
                    const BasicBlock* to = inv->getUnwindDest();
                    jump(s, to);
                    Frame& f2 = s.st.back();
                    Val v;
                    v.k = Val::Agg;
                    v.agg = std::make_shared<std::vector<Val>>();
                    v.agg->push_back(s.excPtr);
                    v.agg->push_back(Val::I((unsigned)sel, 32));
                    f2.regs[f2.fi->slot.at(lp)] = v;
                    f2.ip = lp->getNextNode();
                    return;
                }
            }
            if (s.st.back().hook != HNone) throw Unsupported{"invariant threw"};
            if (f.fi->F->doesNotThrow() && s.st.size() > 1) failHere(s, "exception", "exception leaves a noexcept function " + f.fi->dem, curLoc(s));
            freeFrame(s, s.st.back());
            s.st.pop_back();
        }
        std::string n = s.excTI ? demangleS(cast<GlobalValue>(s.excTI->stripPointerCasts())->getName().str()) : "?";
        failHere(s, "exception", "uncaught exception (" + n + ")", throwLoc);
    }
    std::string throwLoc;
    void throwStd(State& s, const std::string& tiName) {
        throwLoc = curLoc(s);
        Val p = Val::P(newObj(s, Val::I(64, 64), Obj::Heap, "exc", zeroNode()), Val::I(0, 64));
        s.excPtr = p;
        GlobalVariable* g = M->getGlobalVariable(tiName, true);
        if (!g) throw Unsupported{"typeinfo " + tiName};
        s.excTI = g;
        unwind(s);
    }

#include "builtins.inc"

    // ---- stepping --------------------------------------------------------------------------------------------------
    bool isTrapBlock(const BasicBlock* b) {
        for (auto& i : *b) {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto* c = dyn_cast<IntrinsicInst>(&i))
                return c->getIntrinsicID() == Intrinsic::ubsantrap || c->getIntrinsicID() == Intrinsic::trap;
            return false;
        }
        return false;
    }
    static const char* trapName(unsigned k) {
        switch (k) {
            case 0: return "signed addition overflow";
            case 3: return "integer division by zero / overflow";
            case 5: return "float-to-int cast out of range";
            case 12: return "signed multiplication overflow";
            case 13: return "signed negation overflow";
            case 20: return "shift amount out of range";
            case 21: return "signed subtraction overflow";
            case 1: return "unreachable code reached";
            case 11: return "missing return";
            case 10: return "load of invalid value";
            case 18: return "array index out of bounds";
            default: return "undefined behaviour";
        }
    }
    unsigned trapCode(const BasicBlock* b) {
        for (auto& i : *b)
            if (auto* c = dyn_cast<IntrinsicInst>(&i))
                if (c->getIntrinsicID() == Intrinsic::ubsantrap) return cast<ConstantInt>(c->getArgOperand(0))->getZExtValue();
        return 99;
    }

    void stepBranch(State& s, const BranchInst* br) {
        if (br->isUnconditional()) { jump(s, br->getSuccessor(0)); return; }
        Val c = get(s, br->getCondition());
        for (int k = 0; k < 2; k++) {
            const BasicBlock* t = br->getSuccessor(k);
            if (isTrapBlock(t)) {
                Val okc = k == 0 ? bnot1(c) : c;
                if (!check(s, okc, "ub", std::string("no ") + trapName(trapCode(t)), curLoc(s))) throw PathEnd{"ub"};
                jump(s, br->getSuccessor(1 - k));
                return;
            }
        }
        bool b = decide(s, c);
        jump(s, br->getSuccessor(b ? 0 : 1));
    }

    void step(State& s) {
        Frame& f = s.st.back();
        const Instruction* I = f.ip;
        instrs++;
        switch (I->getOpcode()) {
            case Instruction::Br: stepBranch(s, cast<BranchInst>(I)); return;
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(I);
                Val c = get(s, sw->getCondition());
                if (!c.sym) {
                    for (auto& cs : sw->cases())
                        if (constVal(cs.getCaseValue()).c == c.c) { jump(s, cs.getCaseSuccessor()); return; }
                    jump(s, sw->getDefaultDest());
                    return;
                }
                // group cases by successor
                std::map<const BasicBlock*, z3::expr> g;
                std::vector<const BasicBlock*> order;
                for (auto& cs : sw->cases()) {
                    z3::expr e = (TB(c) == bvval(constVal(cs.getCaseValue()).c, c.w));
                    auto it = g.find(cs.getCaseSuccessor());
                    if (it == g.end()) { g.emplace(cs.getCaseSuccessor(), e); order.push_back(cs.getCaseSuccessor()); }
                    else it->second = it->second || e;
                }
                for (auto* b : order)
                    if (b != sw->getDefaultDest() && decide(s, Val::S(g.at(b).simplify(), 1))) { jump(s, b); return; }
                jump(s, sw->getDefaultDest());
                return;
            }
            case Instruction::Ret: {
                auto* r = cast<ReturnInst>(I);
                if (r->getReturnValue()) {
                    Val v = get(s, r->getReturnValue());
                    doReturn(s, &v);
                }
                else doReturn(s, nullptr);
                return;
            }
            case Instruction::Unreachable: failHere(s, "ub", "unreachable code reached", curLoc(s)); return;
            case Instruction::Resume: {
                freeFrame(s, s.st.back());
                s.st.pop_back();
                unwind(s);
                return;
            }
            case Instruction::Call:
            case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(I);
                uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
                Val cnt = get(s, a->getArraySize());
                Val sz = vmul(Val::I(n, 64), vzext(cnt, 64));
                int ob = newObj(s, sz, Obj::Stack, a->getName().str(), funNode("stk", 1));
                f.allocas.push_back(ob);
                setReg(s, I, Val::P(ob, Val::I(0, 64)));
                advance(s);
                return;
            }
            case Instruction::Load: {
                Val v = load(s, get(s, I->getOperand(0)), I->getType());
                setReg(s, I, v);
                advance(s);
                return;
            }
            case Instruction::Store: {
                store(s, get(s, I->getOperand(1)), get(s, I->getOperand(0)), I->getOperand(0)->getType());
                advance(s);
                return;
            }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(I);
                Val p = get(s, g->getPointerOperand());
                int ob = p.obj;
                Val off = p;
                off.obj = -1;
                bool symb = false;
                for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                    if (StructType* st = gti.getStructTypeOrNull()) {
                        unsigned idx = cast<ConstantInt>(gti.getOperand())->getZExtValue();
                        off = vadd(off, Val::I((uint64_t)DL->getStructLayout(st)->getElementOffset(idx), 64));
                    }
                    else {
                        Val ix = get(s, gti.getOperand());
                        if (ix.obj >= 0) ix = flat(ix);
                        ix = vsext(ix, 64);
                        if (ix.sym) symb = true;
                        uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
                        off = vadd(off, vmul(ix, Val::I(es, 64)));
                    }
                }
                if (symb) off = simp(off);
                off.obj = ob;
                setReg(s, I, off);
                advance(s);
                return;
            }
            case Instruction::PHI: throw Unsupported{"phi"};
            case Instruction::Select: {
                Val c = get(s, I->getOperand(0)), a = get(s, I->getOperand(1)), b = get(s, I->getOperand(2));
                Val r;
                if (!c.sym) r = (c.c & 1) ? a : b;
                else if (a.k == Val::Agg || a.obj != b.obj) r = decide(s, c) ? a : b;
                else r = vite(c, a, b);
                setReg(s, I, r);
                advance(s);
                return;
            }
            case Instruction::ICmp: {
                auto* ic = cast<ICmpInst>(I);
                Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
                Val r = (a.obj >= 0 || b.obj >= 0) ? cmpPtr(ic->getPredicate(), a, b) : vcmp(ic->getPredicate(), a, b);
                setReg(s, I, r);
                advance(s);
                return;
            }
            case Instruction::FCmp: setReg(s, I, fcmp(cast<FCmpInst>(I)->getPredicate(), get(s, I->getOperand(0)), get(s, I->getOperand(1)))); advance(s); return;
            case Instruction::FAdd:
            case Instruction::FSub:
            case Instruction::FMul:
            case Instruction::FDiv:
            case Instruction::FRem:
                {
                    Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
                    if (fpAny && (a.sym || b.sym)) {   // over-approximation: any result
                        trusted["results of floating-point arithmetic arbitrary (over-approximation)"]++;
                        Val r = asFP(fresh(a.w, "fp"));
                        z3::expr A = fpT(a), Bt = fpT(b), R = fpT(r), zero = fpT(asFP(Val::I(0, a.w)));
                        auto ge = [&](const z3::expr& x, const z3::expr& y) { return z3::expr(Z, Z3_mk_fpa_geq(Z, x, y)); };
                        auto gt = [&](const z3::expr& x, const z3::expr& y) { return z3::expr(Z, Z3_mk_fpa_gt(Z, x, y)); };
                        auto inf = [&](const z3::expr& x) { return z3::expr(Z, Z3_mk_fpa_is_infinite(Z, x)); };
                        if (I->getOpcode() == Instruction::FSub) addPC(s, z3::implies(ge(A, Bt) && !inf(Bt), ge(R, zero)));
                        if (I->getOpcode() == Instruction::FDiv) addPC(s, z3::implies(ge(A, Bt) && gt(Bt, zero) && !inf(A), ge(R, fpT(mkFPc(1.0, a.w)))));
                        if (I->getOpcode() == Instruction::FSub && b.xi && b.xi->sym) {   // x less its integer part
                            auto t = truncOf.find(b.xi->e.id());
                            if (t != truncOf.end() && z3::eq(t->second.first, b.xi->e) && z3::eq(t->second.second, A)) {
                                addPC(s, ge(R, zero));
                                addPC(s, gt(fpT(mkFPc(1.0, a.w)), R));
                            }
                        }
                        if (I->getOpcode() == Instruction::FDiv) addPC(s, z3::implies(gt(A, zero) && gt(Bt, zero) && !inf(A), ge(R, zero)));
                        setReg(s, I, r);
                    }
                    else setReg(s, I, fbin(I->getOpcode(), a, b));
                }
                advance(s);
                return;
            case Instruction::FNeg: {
                Val a = get(s, I->getOperand(0));
                if (!a.sym) { Val r = Val::I(a.c ^ ((u128)1 << (a.w - 1)), a.w); r.k = Val::FP; setReg(s, I, r); }
                else {
                    Val r = mkFP(-fpT(a), a.w);
                    if (a.xi) r.xi = std::make_shared<Val>(vsub(Val::I(0, 64), *a.xi));
                    setReg(s, I, r);
                }
                advance(s);
                return;
            }
            case Instruction::ExtractValue: {
                Val a = get(s, I->getOperand(0));
                for (unsigned ix : cast<ExtractValueInst>(I)->indices()) { Val t = (*a.agg)[ix]; a = t; }
                setReg(s, I, a);
                advance(s);
                return;
            }
            case Instruction::InsertValue: {
                auto* iv = cast<InsertValueInst>(I);
                Val a = get(s, iv->getAggregateOperand());
                Val v = get(s, iv->getInsertedValueOperand());
                a = insertVal(a, v, iv->getIndices(), 0);
                setReg(s, I, a);
                advance(s);
                return;
            }
            case Instruction::Freeze: setReg(s, I, get(s, I->getOperand(0))); advance(s); return;
            case Instruction::Fence: advance(s); return;
            case Instruction::AtomicRMW: {
                auto* a = cast<AtomicRMWInst>(I);
                trusted["atomics executed as sequential code (single thread)"]++;
                Val p = get(s, a->getPointerOperand());
                Val old = load(s, p, a->getType());
                Val v = get(s, a->getValOperand());
                Val nv;
                switch (a->getOperation()) {
                    case AtomicRMWInst::Xchg: nv = v; break;
                    case AtomicRMWInst::Add: nv = vadd(old, v); break;
                    case AtomicRMWInst::Sub: nv = vsub(old, v); break;
                    case AtomicRMWInst::And: nv = vbin(Instruction::And, old, v); break;
                    case AtomicRMWInst::Or: nv = vbin(Instruction::Or, old, v); break;
                    case AtomicRMWInst::Xor: nv = vbin(Instruction::Xor, old, v); break;
                    default: throw Unsupported{"atomicrmw"};
                }
                store(s, p, nv, a->getType());
                setReg(s, I, old);
                advance(s);
                return;
            }
            case Instruction::AtomicCmpXchg: {
                auto* a = cast<AtomicCmpXchgInst>(I);
                Val p = get(s, a->getPointerOperand());
                Val old = load(s, p, a->getCompareOperand()->getType());
                Val c = cmpPtr(CmpInst::ICMP_EQ, old, get(s, a->getCompareOperand()));
                bool eq = decide(s, c);
                if (eq) store(s, p, get(s, a->getNewValOperand()), a->getCompareOperand()->getType());
                Val v;
                v.k = Val::Agg;
                v.agg = std::make_shared<std::vector<Val>>();
                v.agg->push_back(old);
                v.agg->push_back(Val::I(eq, 1));
                setReg(s, I, v);
                advance(s);
                return;
            }
            default: break;
        }
        if (I->isBinaryOp()) {
            Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
            if (a.k == Val::FP || a.k == Val::Agg) throw Unsupported{"binop kind"};
            if ((I->getOpcode() == Instruction::URem || I->getOpcode() == Instruction::UDiv) && b.sym && a.obj < 0 && b.obj < 0 && a.w <= 64) {
                // a < 2b: quotient is 0 or 1
                z3::expr x = T(a), y = T(b);
                z3::expr small = z3::ult(x, y) || (z3::uge(x, y) && z3::ult(x - y, y));
                if (solver.feas(s.pc, !small, nullptr) == UNSAT) {
                    Val lt = vcmp(CmpInst::ICMP_ULT, a, b);
                    setReg(s, I, I->getOpcode() == Instruction::URem ? vite(lt, a, vsub(a, b)) : vite(lt, Val::I(0, a.w), Val::I(1, a.w)));
                    advance(s);
                    return;
                }
            }
            Val r = (a.obj >= 0 || b.obj >= 0) ? ptrArith(I->getOpcode(), a, b) : vbin(I->getOpcode(), a, b);
            setReg(s, I, r);
            advance(s);
            return;
        }
        if (I->isCast()) {
            Val a = get(s, I->getOperand(0));
            Type* t = I->getType();
            unsigned w = t->isPointerTy() ? 64 : t->getScalarSizeInBits();
            if (t->isVectorTy() || (t->isFloatingPointTy() && w > 64)) throw Unsupported{"cast type"};
            Val r;
            switch (I->getOpcode()) {
                case Instruction::Trunc: r = vtrunc(flat(a), w); break;
                case Instruction::ZExt: r = vzext(flat(a), w); break;
                case Instruction::SExt: r = vsext(flat(a), w); break;
                case Instruction::PtrToInt:
                case Instruction::IntToPtr: r = a.w == w ? a : (a.w > w ? vtrunc(flat(a), w) : vzext(flat(a), w)); break;
                case Instruction::BitCast:
                    if (t->isFloatingPointTy()) r = asFP(a);
                    else r = asInt(a);
                    break;
                case Instruction::FPToSI:
                    if (fpAny && fpBound && a.sym && a.w == 64) {   // 0 <= x < bound here: any integer of that range
                        Val k = Val::I((u128)fpBound, 64);
                        z3::expr in = z3::expr(Z, Z3_mk_fpa_lt(Z, fpT(a), fpT(fcast(Instruction::SIToFP, k, 64)))) && z3::expr(Z, Z3_mk_fpa_geq(Z, fpT(a), fpT(fcast(Instruction::SIToFP, Val::I(0, 64), 64))));
                        if (solver.feas(s.pc, !in, nullptr) == UNSAT) {
                            r = fresh(w, "fpi");
                            addPC(s, vcmp(CmpInst::ICMP_SGE, r, Val::I(0, w)).e);
                            addPC(s, vcmp(CmpInst::ICMP_SLT, r, Val::I((u128)fpBound, w)).e);
                            addPC(s, z3::expr(Z, Z3_mk_fpa_leq(Z, fpT(fcast(Instruction::SIToFP, r, 64)), fpT(a))));   // rounded towards zero
                            addPC(s, z3::implies(z3::expr(Z, Z3_mk_fpa_geq(Z, fpT(a), fpT(mkFPc(1.0, 64)))), vcmp(CmpInst::ICMP_SGE, r, Val::I(1, w)).e));
                            truncOf.emplace(r.e.id(), std::make_pair(r.e, fpT(a)));
                            break;
                        }
                    }
                    r = fcast(I->getOpcode(), a, w);
                    break;
                default: r = fcast(I->getOpcode(), a, w); break;
            }
            setReg(s, I, r);
            advance(s);
            return;
        }
        throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
    Val insertVal(const Val& a, const Val& v, ArrayRef<unsigned> ix, unsigned k) {
        if (k == ix.size()) return v;
        Val r = a;
        r.agg = std::make_shared<std::vector<Val>>(*a.agg);
        (*r.agg)[ix[k]] = insertVal((*a.agg)[ix[k]], v, ix, k + 1);
        return r;
    }

    // ---- main loop -------------------------------------------------------------------------------------------------
    void runHarness() {
        Function* H = M->getFunction("vc_h_" + o.harness);
        if (!H || H->isDeclaration()) { unsupported["harness missing: " + o.harness]++; return; }
        for (int iter = 0; iter < 60; iter++) {
            obligs.clear(); covers.clear(); coversSeen.clear(); trusted.clear(); analysed.clear(); contracts.clear();
            unsupported.clear(); bounded.clear(); replaceMap.clear(); unmodelled.clear();
            paths = pathsDone = 0;
            freshN = 0;
            needRestart = false;
            solver.reset();
            explore(H);
            if (!needRestart || timedOut) return;
        }
        unsupported["loop write-set did not converge"]++;
    }
    void explore(Function* H) {
        std::vector<std::unique_ptr<State>> work;
        work.emplace_back(new State);
        pushCall(*work.back(), H, {});
        while (!work.empty()) {
            if (now() - t0 > o.time) { timedOut = true; unsupported["time limit"]++; return; }
            if (paths > o.maxPaths) { unsupported["path limit"]++; return; }
            std::unique_ptr<State> s = std::move(work.back());
            work.pop_back();
            cur = s.get();
            try {
                for (;;) {
                    step(*s);
                    if (needRestart) return;
                    if ((instrs & 0xfff) == 0 && now() - t0 > o.time) { timedOut = true; unsupported["time limit"]++; return; }
                }
            }
            catch (Fork& fk) {
                // a fork request: the current instruction is re-executed under both decisions
                const Instruction* I = curI(*s);
                unsigned n = ++s->st.back().forks[I];
                unsigned lim = unroll;
                bool mv, have = evalModel(*s, fk.c, mv);
                ModelP mt, mf;
                Res rt, rf;
                if (have && mv) { rt = SAT; mt = s->model; }
                else rt = solver.feas(s->pc, fk.c, &mt);
                if (rt == UNSAT) { rf = SAT; mf = s->model; }
                else if (have && !mv) { rf = SAT; mf = s->model; }
                else rf = solver.feas(s->pc, !fk.c, &mf);
                if (o.trace) std::cerr << "FORK " << locOf(I) << " " << s->st.back().fi->qual << " " << rt << rf << " n=" << n << " depth=" << work.size() << " pc=" << s->pc.size() << "\n";
                if (rt != UNSAT && rf != UNSAT && n > lim) {
                    bounded["loop at " + curLoc(*s) + " in " + s->st.back().fi->qual + " unrolled " + std::to_string(lim) + " times"]++;
                    continue;
                }
                if (rt == UNSAT && rf == UNSAT) { paths++; continue; }
                if (rt != UNSAT && rf != UNSAT) {
                    std::unique_ptr<State> s2(new State(*s));
                    s2->model = mf;
                    if (rf == UNK) s2->unkFeas = true;
                    addPC2(*s2, fk.c, false, mf);
                    addPC2(*s, fk.c, true, mt);
                    if (rt == UNK) s->unkFeas = true;
                    work.push_back(std::move(s2));
                    work.push_back(std::move(s));
                }
                else if (rt != UNSAT) {
                    // implied: remember without growing the path condition
                    remember(*s, fk.c, true);
                    work.push_back(std::move(s));
                }
                else {
                    remember(*s, fk.c, false);
                    work.push_back(std::move(s));
                }
            }
            catch (PathEnd& p) {
                paths++;
                if (p.why == "done") {
                    pathsDone++;
                }
                if (o.trace) std::cerr << "PATH END " << p.why << " @" << (s->st.empty() ? "" : curLoc(*s)) << "\n";
            }
            catch (Unsupported& u) {
                paths++;
                std::string where = s->st.empty() ? "" : (" @" + curLoc(*s) + " in " + s->st.back().fi->qual);
                unsupported[u.what + where]++;
                if (o.trace || getenv("VCX_STACK")) {
                    std::cerr << "UNSUPPORTED " << u.what << "\n";
                    for (size_t i = s->st.size(); i-- > 0;) std::cerr << "   " << s->st[i].fi->dem << " " << locOf(s->st[i].ip) << "\n";
                }
            }
            catch (std::string& e) { paths++; unsupported[e]++; }
            catch (z3::exception& e) {
                paths++;
                std::string where = s->st.empty() ? "" : (" @" + curLoc(*s) + " in " + s->st.back().fi->qual);
                unsupported[std::string("z3: ") + e.msg() + where]++;
            }
        }
    }
    void addPC2(State& s, const z3::expr& c, bool pos, ModelP m) {
        z3::expr e = pos ? c : (!c).simplify();
        remember(s, c, pos);
        ModelP keep = m;
        s.model = nullptr;
        addPC(s, e);
        s.model = keep;
    }

    // ---- setup -----------------------------------------------------------------------------------------------------
    struct LoopDecl { std::string fn; unsigned idx; Function* inv; };
    void prepare() {
        // collect loop declarations made by this harness
        std::vector<LoopDecl> decls;
        Function* H = M->getFunction("vc_h_" + o.harness);
        std::set<Function*> seen;
        std::vector<Function*> todo;
        if (H) todo.push_back(H);
        // declarations may sit in helper functions called directly from the harness
        while (!todo.empty()) {
            Function* F = todo.back();
            todo.pop_back();
            if (!seen.insert(F).second || seen.size() > 400) continue;
            for (auto& I : instructions(F))
                if (auto* c = dyn_cast<CallBase>(&I))
                    if (Function* g = c->getCalledFunction()) {
                        if (g->getName() == "vc_loop") {
                            std::string fn = constStr(c->getArgOperand(0));
                            unsigned ix = 0;
                            if (auto* ci = dyn_cast<ConstantInt>(c->getArgOperand(1))) ix = ci->getZExtValue();
                            auto* inv = dyn_cast<Function>(c->getArgOperand(2)->stripPointerCasts());
                            if (inv && !fn.empty()) decls.push_back({fn, ix, inv});
                            else unsupported["vc_loop arguments not constant"]++;
                        }
                        else if (!g->isDeclaration() && g->getName().starts_with("_ZL")) todo.push_back(g);
                    }
        }
        std::map<Function*, std::vector<LoopDecl>> byFn;
        if (!o.bounded)
            for (auto& d : decls) {
                bool found = false;
                for (auto& F : *M) {
                    if (F.isDeclaration()) continue;
                    std::string dm = demangleS(F.getName().str());
                    if (dm == d.fn || qualOf(dm) == d.fn) {
                        byFn[&F].push_back(d);
                        F.removeFnAttr(Attribute::AlwaysInline);
                        F.addFnAttr(Attribute::NoInline);
                        F.addFnAttr(Attribute::OptimizeNone);
                        found = true;
                    }
                }
                if (!found) notes["loop-decl " + d.fn] = "function not found";
            }
        // light clean-up of everything else
        {
            LoopAnalysisManager LAM;
            FunctionAnalysisManager FAM;
            CGSCCAnalysisManager CGAM;
            ModuleAnalysisManager MAM;
            PassBuilder PB;
            PB.registerModuleAnalyses(MAM);
            PB.registerCGSCCAnalyses(CGAM);
            PB.registerFunctionAnalyses(FAM);
            PB.registerLoopAnalyses(LAM);
            PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
            FunctionPassManager FPM;
            FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
            FPM.addPass(EarlyCSEPass(true));
            SimplifyCFGOptions sc;
            sc.ConvertSwitchToLookupTable = false;
            FPM.addPass(SimplifyCFGPass(sc));
            for (auto& F : *M)
                if (!F.isDeclaration() && !F.hasFnAttribute(Attribute::OptimizeNone)) FPM.run(F, FAM);
        }
        for (auto& kv : byFn) {
            FnInfo* fi = info(kv.first);
            for (auto& I : instructions(kv.first))
                if (auto* d = dyn_cast<DbgDeclareInst>(&I)) {
                    std::string n = d->getVariable()->getName().str();
                    if (d->getAddress()) fi->scoped[n].push_back({d->getVariable()->getScope()->getNonLexicalBlockFileScope(), d->getAddress()});
                    if (d->getAddress() && !fi->locals.count(n)) {
                        fi->locals[n] = d->getAddress();
                        auto* e = d->getExpression();   // the variable lives where the alloca points (NRVO, arguments passed by address)
                        if (e && e->getNumElements() == 1 && e->getElement(0) == dwarf::DW_OP_deref) fi->indirect.insert(n);
                    }
                }
            fi->dt.reset(new DominatorTree(*kv.first));
            fi->li.reset(new LoopInfo(*fi->dt));
            std::vector<Loop*> ls = {};
            for (Loop* L : fi->li->getLoopsInPreorder()) ls.push_back(L);
            std::map<const BasicBlock*, int> order;
            int n = 0;
            for (auto& bb : *kv.first) order[&bb] = n++;
            std::stable_sort(ls.begin(), ls.end(), [&](Loop* a, Loop* b) { return order[a->getHeader()] < order[b->getHeader()]; });
            for (auto& d : kv.second) {
                if (d.idx >= ls.size()) { notes["loop-decl " + d.fn] = "no loop " + std::to_string(d.idx); continue; }
                specs.emplace_back(new LoopSpec);
                LoopSpec* sp = specs.back().get();
                sp->inv = d.inv;
                sp->idx = d.idx;
                sp->loop = ls[d.idx];
                sp->fn = d.fn;
                fi->loopHdr[ls[d.idx]->getHeader()] = sp;
            }
        }
    }
    std::string constStr(const Value* v) {
        v = v->stripPointerCasts();
        if (auto* g = dyn_cast<GlobalVariable>(v))
            if (g->hasInitializer())
                if (auto* c = dyn_cast<ConstantDataSequential>(g->getInitializer()))
                    if (c->isCString()) return c->getAsCString().str();
        return "";
    }
    int main() {
        SMDiagnostic d;
        M = parseIRFile(o.bc, d, ctx);
        if (!M) { d.print("vcx", errs()); return 2; }
        DL = &M->getDataLayout();
        t0 = now();
        prepare();
        for (auto& F : *M) { gid[&F] = gvs.size(); gvs.push_back(&F); }
        for (auto& g : M->globals()) {
            gid[&g] = gvs.size();
            gvs.push_back(&g);
            if (g.getName().starts_with("_ZTI")) tiByName[g.getName().str()] = &g;
        }
        for (auto& a : M->aliases()) { gid[&a] = gvs.size(); gvs.push_back(&a); }
        NG = gvs.size();
        unroll = o.unroll ? o.unroll : (o.bounded ? 24 : 70);
        solver.o.tmp = o.tmp;
        solver.o.ext_s = o.ext;
        try { runHarness(); }
        catch (Restart&) {}
        writeJson();
        return 0;
    }
    static std::string js(const std::string& s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) r += '?';
            else r += c;
        }
        return r + "\"";
    }
    void jmap(std::ostream& os, const char* n, const std::map<std::string, long>& m) {
        os << ",\n " << js(n) << ": {";
        bool first = true;
        for (auto& kv : m) { os << (first ? "" : ", ") << js(kv.first) << ": " << kv.second; first = false; }
        os << "}";
    }
    void writeJson() {
        std::ostringstream os;
        os << "{\n \"harness\": " << js(o.harness) << ", \"bounded_mode\": " << (o.bounded ? "true" : "false");
        os << ",\n \"paths\": " << paths << ", \"paths_done\": " << pathsDone << ", \"instructions\": " << instrs << ", \"loop_cuts\": " << specs.size()
           << ", \"wall_s\": " << (now() - t0) << ", \"timed_out\": " << (timedOut ? "true" : "false");
        jmap(os, "trusted", trusted);
        jmap(os, "analysed", analysed);
        jmap(os, "contracts", contracts);
        jmap(os, "unsupported", unsupported);
        jmap(os, "bounded", bounded);
        jmap(os, "covers", covers);
        os << ",\n \"notes\": {";
        bool first = true;
        for (auto& n : notes) { os << (first ? "" : ", ") << js(n.first) << ": " << js(n.second); first = false; }
        os << "},\n \"solver\": {";
        first = true;
        for (auto& n : solver.st.n) {
            os << (first ? "" : ", ") << js(n.first) << ": {\"queries\": " << n.second << ", \"decided\": " << solver.st.decided[n.first]
               << ", \"s\": " << solver.st.t[n.first] << "}";
            first = false;
        }
        os << "},\n \"obligations\": [";
        first = true;
        for (auto& kv : obligs) {
            Oblig& x = kv.second;
            os << (first ? "\n" : ",\n") << "  {\"kind\": " << js(x.kind) << ", \"name\": " << js(x.name) << ", \"loc\": " << js(x.loc) << ", \"instances\": " << x.inst
               << ", \"discharged\": " << x.discharged << ", \"trivial\": " << x.trivial << ", \"failed\": " << x.failed << ", \"unknown\": " << x.unknown
               << ", \"ms\": " << (long)x.ms << ", \"replay\": " << js(x.replay) << "}";
            first = false;
        }
        os << "\n ]\n}\n";
        if (o.out.empty()) std::cout << os.str();
        else std::ofstream(o.out) << os.str();
    }
};

Val Engine::nodeByte(State& s, const Node* nd, const Val& off) {
    // iterative walk with ite accumulation
    std::vector<std::pair<Val, Val>> guards;  // (cond, value) outermost first
    Val base;
    for (;;) {
        if (nd->t == Node::Zero) { base = Val::I(0, 8); break; }
        if (nd->t == Node::Fun) {
            if (nd->es == 1) base = Val::S((*nd->f)(T(off)), 8);
            else {
                Val a = vbin(Instruction::And, off, Val::I(~(uint64_t)(nd->es - 1), 64));
                Val whole = Val::S((*nd->f)(T(simp(a))), 8 * nd->es);
                Val sh = vbin(Instruction::And, off, Val::I(nd->es - 1, 64));
                if (!sh.sym) base = vextractByte(whole, (unsigned)sh.c);
                else {
                    Val s8 = vmul(sh, Val::I(8, 64));
                    Val amt = nd->es == 8 ? s8 : vtrunc(s8, 8 * nd->es);
                    base = vtrunc(vbin(Instruction::LShr, whole, amt), 8);
                }
            }
            break;
        }
        if (nd->t == Node::Const) { base = constTable(s, nd, off, 1); break; }
        if (nd->t == Node::Store) {
            int64_t d;
            if (cdiff(off, nd->off, d)) {
                if (d >= 0 && d < (int64_t)nd->n) { base = vextractByte(nd->v, (unsigned)d); break; }
                nd = nd->next.get();
                continue;
            }
            Val diff = vsub(off, nd->off);
            z3::expr in = z3::ult(T(diff), bvval(nd->n, 64));
            int mm = must(s, in);
            if (mm == 0) { nd = nd->next.get(); continue; }
            Val v = flat(asInt(nd->v));
            Val b;
            if (nd->n == 1) b = vtrunc(v, 8);
            else {
                b = vextractByte(v, 0);
                for (unsigned i = 1; i < nd->n; i++) b = vite(Val::S(T(diff) == bvval(i, 64), 1), vextractByte(v, i), b);
            }
            if (mm == 1) { base = b; break; }
            guards.push_back({Val::S(in, 1), b});
            nd = nd->next.get();
            continue;
        }
        // Copy / Set
        Val diff = simp(vsub(off, nd->off));
        Val in = vcmp(CmpInst::ICMP_ULT, diff, nd->len);
        int mm = in.sym ? must(s, in.e) : (int)in.c;
        if (mm == 0) { nd = nd->next.get(); continue; }
        Val b;
        if (nd->t == Node::Set) b = nd->v;
        else b = readByte(s, &nd->src->cells, nd->src->chain.get(), simp(vadd(diff, nd->soff)));
        if (mm == 1) { base = b; break; }
        guards.push_back({in, b});
        nd = nd->next.get();
    }
    for (size_t i = guards.size(); i-- > 0;) base = vite(guards[i].first, guards[i].second, base);
    return base;
}

Val Engine::nodeRead(State& s, const Node* nd, unsigned es, const Val& off, unsigned n) {
    if (n == 1) return nodeByte(s, nd, off);
    std::vector<std::pair<Val, Val>> guards;
    Val base;
    bool done = false;
    auto bytes = [&](const Node* at) {
        std::vector<Val> b;
        for (unsigned i = 0; i < n; i++) b.push_back(nodeByte(s, at, vadd(off, Val::I(i, 64))));
        return vconcatBytes(b);
    };
    while (!done) {
        if (nd->t == Node::Zero) { base = Val::I(0, 8 * n); break; }
        if (nd->t == Node::Const) { base = constTable(s, nd, off, n); break; }
        if (nd->t == Node::Fun) {
            if (nd->es == n) {
                bool al = !off.sym ? off.c % n == 0 : must(s, z3::urem(off.e, bvval(n, 64)) == bvval(0, 64)) == 1;
                if (al) { base = Val::S((*nd->f)(T(off)), 8 * n); break; }
            }
            base = bytes(nd);
            break;
        }
        if (nd->t == Node::Store) {
            int64_t d;
            if (cdiff(off, nd->off, d)) {
                if (d == 0 && nd->n == n) { base = nd->v; break; }
                if (d >= (int64_t)nd->n || d <= -(int64_t)n) { nd = nd->next.get(); continue; }
                if (d >= 0 && d + n <= nd->n) {
                    Val v = flat(asInt(nd->v));
                    if (!v.sym) base = Val::I(v.c >> (8 * d), 8 * n);
                    else base = Val::S(v.e.extract(8 * (d + n) - 1, 8 * d).simplify(), 8 * n);
                    break;
                }
                base = bytes(nd);
                break;
            }
            Val diff = simp(vsub(off, nd->off));
            if (nd->n == n) {
                z3::expr eq = (T(diff) == bvval(0, 64)).simplify();
                int mm = must(s, eq);
                if (mm == 1) { base = nd->v; break; }
                bool aligned = false;
                if ((n & (n - 1)) == 0) aligned = must(s, (T(diff) & bvval(n - 1, 64)) == bvval(0, 64)) == 1;
                else aligned = must(s, z3::urem(T(diff), bvval(n, 64)) == bvval(0, 64)) == 1;
                if (mm == 0 && aligned) { nd = nd->next.get(); continue; }
                if (aligned) {
                    if (nd->v.isPtr()) {
                        if (decide(s, Val::S(eq, 1))) { base = nd->v; break; }
                        nd = nd->next.get();
                        continue;
                    }
                    guards.push_back({Val::S(eq, 1), nd->v});
                    nd = nd->next.get();
                    continue;
                }
            }
            // disjoint?
            z3::expr dis = z3::uge(T(diff), bvval(nd->n, 64)) && z3::ule(T(diff), bvval((u128)0 - n, 64));
            int mm = must(s, dis);
            if (mm == 1) { nd = nd->next.get(); continue; }
            base = bytes(nd);
            break;
        }
        // Copy / Set: inside, outside or ambiguous
        Val diff = simp(vsub(off, nd->off));
        z3::expr D = T(diff), L = T(nd->len);
        z3::expr inside = (z3::uge(L, bvval(n, 64)) && z3::ule(D, L - bvval(n, 64)));
        z3::expr outside = (z3::uge(D, L) && z3::ule(D, bvval((u128)0 - n, 64)));
        int mm = must(s, inside);
        if (mm == 1) {
            if (nd->t == Node::Set) {
                std::vector<Val> b(n, nd->v);
                base = vconcatBytes(b);
            }
            else base = readMem(s, &nd->src->cells, nd->src->chain.get(), nd->src->es, simp(vadd(diff, nd->soff)), n);
            break;
        }
        if (must(s, outside) == 1) { nd = nd->next.get(); continue; }
        base = bytes(nd);
        break;
    }
    for (size_t i = guards.size(); i-- > 0;) {
        Val a = asInt(guards[i].second), b = asInt(base);
        base = vite(guards[i].first, a, b);
    }
    return base;
}

int main(int argc, char** argv) {
    ZC = new z3::context();
    Z3_set_error_handler(*ZC, nullptr);
    Engine* e = new Engine;
    ZC->set_enable_exceptions(true);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--bc") e->o.bc = nx();
        else if (a == "--harness") e->o.harness = nx();
        else if (a == "--out") e->o.out = nx();
        else if (a == "--bounded") e->o.bounded = true;
        else if (a == "--unroll") e->o.unroll = atoi(nx().c_str());
        else if (a == "--time") e->o.time = atoi(nx().c_str());
        else if (a == "--paths") e->o.maxPaths = atoi(nx().c_str());
        else if (a == "--ext") e->o.ext = atoi(nx().c_str());
        else if (a == "--tmp") e->o.tmp = nx();
        else if (a == "--trace") e->o.trace = true;
    }
    int r = e->main();
    fflush(stdout);
    std::cout.flush();
    _exit(r);
}
