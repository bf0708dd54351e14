// Solver portfolio: incremental z3, fresh z3, int-lifted z3, external z3/cvc5 processes.
#pragma once
#include <iostream>
#include "intlift.h"
#include <chrono>
#include <fstream>
#include <functional>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

static inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
enum Res { UNSAT = 0, SAT = 1, UNK = 2 };

typedef std::shared_ptr<z3::model> ModelP;
typedef std::vector<z3::expr> PC;

struct SolverStats {
    std::map<std::string, long> n;
    std::map<std::string, double> t;
    std::map<std::string, long> decided;
};

struct SolverOpts {
    bool intlift = false;      // try int-lift before bit-vectors
    unsigned quick_ms = 1000;
    unsigned feas_ms = 1500;
    unsigned full_ms = 8000;
    unsigned ext_s = 60;
    std::string tmp = "/tmp";
};

class Solver {
public:
    SolverOpts o;
    SolverStats st;
    std::unique_ptr<z3::solver> inc;
    std::vector<z3::expr> stack;
    double lastLiftFail = 0;

    Solver() {}
    void reset() { inc.reset(new z3::solver(Z)); stack.clear(); }

    void sync(const PC& pc) {
        if (!inc) reset();
        size_t i = 0;
        while (i < stack.size() && i < pc.size() && z3::eq(stack[i], pc[i])) i++;
        if (stack.size() > i) {
            inc->pop(stack.size() - i);
            while (stack.size() > i) stack.pop_back();
        }
        for (; i < pc.size(); i++) {
            inc->push();
            inc->add(pc[i]);
            stack.push_back(pc[i]);
        }
    }
    Res z3check(z3::solver& s, unsigned ms, const char* backend, ModelP* m) {
        double t0 = now();
        z3::params p(Z);
        p.set("timeout", ms);
        s.set(p);
        z3::check_result r = z3::unknown;
        try {
            r = s.check();
        }
        catch (z3::exception&) {
            r = z3::unknown;
        }
        double dt = now() - t0;
        if (getenv("VCX_SLOW") && dt > 0.5) std::ofstream("/tmp/slow.smt2") << s.to_smt2();
        st.n[backend]++;
        st.t[backend] += dt;
        if (r == z3::unsat) { st.decided[backend]++; return UNSAT; }
        if (r == z3::sat) {
            st.decided[backend]++;
            if (m) {
                try {
                    *m = std::make_shared<z3::model>(s.get_model());
                }
                catch (z3::exception&) {
                    return UNK;
                }
            }
            return SAT;
        }
        return UNK;
    }
    // cone of influence
    static void symsOf(const z3::expr& e, std::set<unsigned>& out, std::unordered_set<unsigned>& seen) {
        if (!seen.insert(e.id()).second) return;
        if (e.is_app()) {
            if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) out.insert(e.decl().id());
            for (unsigned i = 0; i < e.num_args(); i++) symsOf(e.arg(i), out, seen);
        }
    }
    std::unordered_map<unsigned, std::pair<z3::expr, std::set<unsigned>>> symCache;
    const std::set<unsigned>& syms(const z3::expr& e) {
        auto it = symCache.find(e.id());
        if (it == symCache.end()) {
            std::set<unsigned> s;
            std::unordered_set<unsigned> seen;
            symsOf(e, s, seen);
            it = symCache.emplace(e.id(), std::make_pair(e, s)).first;
        }
        return it->second.second;
    }
    PC slice(const PC& pc, const z3::expr& goal) {
        std::set<unsigned> S = syms(goal);
        std::vector<bool> in(pc.size(), false);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (in[i]) continue;
                const auto& t = syms(pc[i]);
                bool hit = false;
                for (unsigned x : t)
                    if (S.count(x)) { hit = true; break; }
                if (hit) {
                    in[i] = true;
                    S.insert(t.begin(), t.end());
                    ch = true;
                }
            }
        }
        PC out;
        for (size_t i = 0; i < pc.size(); i++)
            if (in[i]) out.push_back(pc[i]);
        return out;
    }

    Res lifted(const PC& fs, unsigned ms, ModelP* m) {
        const char* be = "z3-intlift";
        double t0 = now();
        IntLift L;
        z3::solver s(Z);
        try {
            // facts only from formulas that can be lifted themselves (they are asserted below)
            for (auto& f : fs) L.fact(f, true);
            for (auto& f : fs) s.add(L.B(f));
            for (auto& x : L.side) s.add(x);
        }
        catch (LiftFail& f) {
            st.n["intlift-unsupported"]++;
            if (getenv("VCX_DEBUG_LIFT")) fprintf(stderr, "lift fail: %s\n", f.why.c_str());
            return UNK;
        }
        st.t["intlift-translate"] += now() - t0;
        ModelP im;
        if (getenv("VCX_DUMP_LIFT")) {
            static int n = 0;
            std::ofstream(std::string("/tmp/lift") + std::to_string(n++) + ".smt2") << s.to_smt2();
        }
        Res r = z3check(s, ms, be, &im);
        if (r == UNSAT) return UNSAT;
        if (r == SAT) {
            // validate on the bit-vector problem
            z3::solver b(Z);
            for (auto& f : fs) b.add(f);
            for (auto& l : L.leaves) {
                const z3::expr& leaf = l.second.first;
                unsigned w = leaf.get_sort().bv_size();
                if (leaf.num_args() > 0) continue;
                z3::expr v = im->eval(l.second.second, true);
                std::string str = v.get_decimal_string(0);
                i128 x = 0;
                bool neg = false;
                for (char c : str) {
                    if (c == '-') neg = true;
                    else if (isdigit(c)) x = x * 10 + (c - '0');
                }
                if (neg) x = -x;
                b.add(leaf == bvval((u128)x & maskw(w), w));
            }
            ModelP bm;
            Res r2 = z3check(b, ms, "z3-validate", &bm);
            if (r2 == SAT) {
                if (m) *m = bm;
                return SAT;
            }
        }
        return UNK;
    }

    static std::string dump(const PC& fs) {
        z3::solver s(Z);
        for (auto& f : fs) s.add(f);
        return "(set-logic ALL)\n" + s.to_smt2();
    }
    std::string dumpLifted(const PC& fs, bool& nl) {
        IntLift L;
        z3::solver s(Z);
        try {
            for (auto& f : fs) L.fact(f, true);
            for (auto& f : fs) s.add(L.B(f));
            for (auto& x : L.side) s.add(x);
        }
        catch (LiftFail&) {
            return "";
        }
        nl = L.nonlinear;
        return std::string("(set-logic ALL)\n") + s.to_smt2();
    }
    // external portfolio; decides sat/unsat only (no model)
    Res external(const PC& fs, unsigned secs) {
        static int cnt = 0;
        std::string base = o.tmp + "/q" + std::to_string(getpid()) + "_" + std::to_string(cnt++);
        struct Job { std::string name; std::vector<std::string> cmd; bool satOk; pid_t pid; std::string out; };
        std::vector<Job> jobs;
        std::vector<std::string> files;
        std::string bv = base + ".smt2";
        std::ofstream(bv) << dump(fs);
        files.push_back(bv);
        std::string ts = std::to_string(secs);
        jobs.push_back({"cvc5", {"cvc5", "--tlimit=" + ts + "000", bv}, true, 0, base + ".o0"});
        jobs.push_back({"z3-4.8", {"z3", "-T:" + ts, bv}, true, 0, base + ".o1"});
        jobs.push_back({"z3-new", {"z3-new", "-T:" + ts, bv}, true, 0, base + ".o2"});
        bool nl = false;
        std::string ls = dumpLifted(fs, nl);
        if (!ls.empty()) {
            std::string lf = base + "i.smt2";
            std::ofstream(lf) << ls;
            files.push_back(lf);
            jobs.push_back({"cvc5-int", {"cvc5", "--tlimit=" + ts + "000", "--nl-ext-tplanes", lf}, false, 0, base + ".o3"});
            jobs.push_back({"z3-new-int", {"z3-new", "-T:" + ts, lf}, false, 0, base + ".o4"});
            jobs.push_back({"z3-4.8-int", {"z3", "-T:" + ts, lf}, false, 0, base + ".o5"});
        }
        double t0 = now();
        for (auto& j : jobs) {
            j.pid = fork();
            if (j.pid == 0) {
                int fd = open(j.out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                dup2(fd, 1);
                dup2(fd, 2);
                std::vector<char*> av;
                for (auto& a : j.cmd) av.push_back((char*)a.c_str());
                av.push_back(nullptr);
                execvp(av[0], av.data());
                _exit(127);
            }
            st.n[j.name]++;
        }
        Res res = UNK;
        size_t left = jobs.size();
        while (left && now() - t0 < secs + 5) {
            int status;
            pid_t p = waitpid(-1, &status, WNOHANG);
            if (p <= 0) { usleep(5000); continue; }
            for (auto& j : jobs)
                if (j.pid == p) {
                    j.pid = 0;
                    left--;
                    std::ifstream f(j.out);
                    std::string l, first;
                    while (std::getline(f, l))
                        if (l == "sat" || l == "unsat") { first = l; break; }
                    if (first == "unsat") res = UNSAT;
                    else if (first == "sat" && j.satOk && res == UNK) res = SAT;
                    if (res != UNK) { st.decided[j.name]++; st.t[j.name] += now() - t0; left = 0; }
                    break;
                }
        }
        for (auto& j : jobs)
            if (j.pid) { kill(j.pid, SIGKILL); int s; waitpid(j.pid, &s, 0); }
        for (auto& j : jobs) unlink(j.out.c_str());
        if (!getenv("VCX_KEEP"))
            for (auto& f : files) unlink(f.c_str());
        if (res == UNK) st.t["external-timeout"] += now() - t0;
        return res;
    }

    // quick feasibility
    Res feas(const PC& pc, const z3::expr& c, ModelP* m) {
        if (o.intlift) {
            PC f = slice(pc, c);
            f.push_back(c);
            Res r = lifted(f, o.feas_ms, nullptr);
            if (r == UNSAT) return UNSAT;
            sync(pc);
            inc->push();
            inc->add(c);
            r = z3check(*inc, o.quick_ms / 4 + 1, "z3-inc", m);
            inc->pop();
            return r;
        }
        sync(pc);
        inc->push();
        inc->add(c);
        Res r = z3check(*inc, o.quick_ms, "z3-inc", m);
        inc->pop();
        if (r == UNK) {
            PC f = slice(pc, c);
            f.push_back(c);
            z3::solver s(Z);
            for (auto& x : f) s.add(x);
            r = z3check(s, o.feas_ms, "z3", nullptr);
            if (r == SAT) return UNK;
            if (r == UNK) {
                r = lifted(f, o.feas_ms, nullptr);
                if (r == SAT) r = UNK;
            }
        }
        return r;
    }
    // full check of pc && c (SAT = violation); models where possible
    Res full(const PC& pc, const z3::expr& c, ModelP* m) {
        Res r = UNK;
        PC f = c.is_true() ? pc : slice(pc, c);
        if (!c.is_true()) f.push_back(c);
        if (o.intlift) {
            ModelP lm;
            r = lifted(f, std::min(o.full_ms, 2500u), &lm);
            if (r == UNSAT) return UNSAT;
            if (r == SAT && lm) {
                // extend the slice's model to the whole path condition
                z3::solver s(Z);
                for (auto& x : pc) s.add(x);
                for (unsigned i = 0; i < lm->num_consts(); i++) {
                    z3::func_decl d = lm->get_const_decl(i);
                    if (d.range().is_bv() || d.range().is_bool()) s.add(d() == lm->get_const_interp(d));
                }
                s.add(c);
                ModelP mm;
                if (z3check(s, o.full_ms, "z3-model", &mm) == SAT) { if (m) *m = mm; return SAT; }
            }
            else {
                Res x = external(f, o.ext_s);
                if (x == UNSAT) return UNSAT;
            }
        }
        sync(pc);
        inc->push();
        inc->add(c);
        r = z3check(*inc, o.quick_ms, "z3-inc", m);
        inc->pop();
        if (r != UNK) return r;
        {
            z3::solver s(Z);
            for (auto& x : f) s.add(x);
            ModelP sm;
            r = z3check(s, o.full_ms, "z3", &sm);
            if (r == UNSAT) return r;
            if (r == SAT && getenv("VCX_DEBUG_SLICE")) std::cerr << "slice model: " << *sm << "\n";
        }
        if (!o.intlift) {
            Res r2 = lifted(f, o.full_ms, nullptr);
            if (r2 == UNSAT) return r2;
        }
        if (r == UNK && !o.intlift) {
            r = external(f, o.ext_s);
            if (r == UNSAT) return r;
        }
        if (r == SAT) {
            // need a model of the whole path condition
            z3::solver s(Z);
            for (auto& x : pc) s.add(x);
            s.add(c);
            ModelP mm;
            Res r3 = z3check(s, o.full_ms * 3, "z3-model", &mm);
            if (r3 == SAT) { if (m) *m = mm; return SAT; }
            if (r3 == UNSAT) return UNSAT;
            if (m) m->reset();
            PC g = pc;
            if (!c.is_true()) g.push_back(c);
            return external(g, o.ext_s);
        }
        return r;
    }
};
