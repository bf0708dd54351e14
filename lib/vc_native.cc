// Native runtime of the contract primitives: replay of counterexamples and search for failing inputs on the real code.
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p) __attribute__((weak));

struct Item { char kind; uint64_t v; size_t es; std::string name; std::vector<unsigned char> b; };
static std::vector<Item> tape;
static size_t pos = 0;
static bool replaying = false;
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }
struct Shared { volatile long trial; volatile int status; volatile size_t len; char obligation[400]; char buf[1 << 20]; };
static Shared* sh = nullptr;
static jmp_buf skipj;
static std::map<std::string, void (*)()>& harnesses() { static std::map<std::string, void (*)()> m; return m; }
vc_reg::vc_reg(const char* n, void (*f)()) { harnesses()[n] = f; }

static void rec(const std::string& s) {
    if (!sh) return;
    if (sh->len + s.size() < sizeof(sh->buf)) { memcpy(sh->buf + sh->len, s.data(), s.size()); sh->len = sh->len + s.size(); }
}
static void skip() { longjmp(skipj, 1); }
static uint64_t anyu(unsigned bits) {
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1), r = rnd();
    switch (rnd() % 8) {
        case 0: case 1: return (r % 17) & m;
        case 2: return (0 - (r % 17)) & m;
        case 3: { unsigned k = r % bits; return ((1ull << k) + ((r >> 8) % 5) - 2) & m; }
        case 4: return (r >> (rnd() % 64)) & m;
        case 5: return (r % 1000) & m;
        default: return r & m;
    }
}
static uint64_t ranged(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo;
    if (span == ~0ull) return anyu(64);
    switch (rnd() % 8) {
        case 0: return lo + std::min<uint64_t>(rnd() % 4, span);
        case 1: return hi - std::min<uint64_t>(rnd() % 4, span);
        case 2: case 3: return lo + std::min<uint64_t>(rnd() >> (rnd() % 64), span);
        default: return lo + rnd() % (span + 1);
    }
}
template <class F> static uint64_t scalar(const char* name, F gen) {
    uint64_t v;
    if (replaying) {
        if (pos >= tape.size()) { v = 0; }
        else { v = tape[pos].v; pos++; }
    }
    else v = gen();
    if (sh) { char b[300]; snprintf(b, sizeof b, "s %llx %.200s\n", (unsigned long long)v, name); rec(b); }
    return v;
}
static void fail(const char* what) {
    if (sh) { snprintf(sh->obligation, sizeof sh->obligation, "%s", what); sh->status = 1; }
    fprintf(stdout, "FAILED %s\n", what);
    fflush(stdout);
    _exit(1);
}
extern "C" {
uint64_t vc_u64(const char* n) { return scalar(n, [] { return anyu(64); }); }
uint32_t vc_u32(const char* n) { return scalar(n, [] { return anyu(32); }); }
uint16_t vc_u16(const char* n) { return scalar(n, [] { return anyu(16); }); }
uint8_t vc_u8(const char* n) { return scalar(n, [] { return anyu(8); }); }
bool vc_bool(const char* n) { return scalar(n, [] { return rnd() >> 40 & 1; }) & 1; }
double vc_f64(const char* n) {
    uint64_t v = scalar(n, [] {
        double d; uint64_t r;
        switch (rnd() % 8) {
            case 0: d = (double)(int64_t)(rnd() % 33) - 16; break;
            case 1: d = ((double)(int64_t)(rnd() % 2001) - 1000) / 8; break;
            case 2: d = (double)(int64_t)rnd() / 1e15; break;
            case 3: { static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 1.0/0.0, -1.0/0.0, 0.0/0.0}; d = sp[rnd() % 12]; break; }
            case 4: d = (double)(int64_t)rnd() / 9.3e18; break;
            default: r = rnd(); memcpy(&d, &r, 8); break;
        }
        memcpy(&r, &d, 8);
        return r;
    });
    double d; memcpy(&d, &v, 8); return d;
}
float vc_f32(const char* n) {
    uint32_t v = scalar(n, [] { uint32_t r; float f; switch (rnd() % 4) { case 0: f = (float)(int)(rnd() % 33) - 16; break; case 1: f = ((float)(int)(rnd() % 2001) - 1000) / 8; break; case 2: f = (float)(int64_t)rnd() / 9.3e18f; break; default: r = rnd(); memcpy(&f, &r, 4); } memcpy(&r, &f, 4); return (uint64_t)r; });
    float f; memcpy(&f, &v, 4); return f;
}
uint64_t vc_range(uint64_t lo, uint64_t hi, const char* n) {
    uint64_t v = scalar(n, [=] { return ranged(lo, hi); });
    if (v < lo || v > hi) skip();
    return v;
}
int64_t vc_irange(int64_t lo, int64_t hi, const char* n) {
    int64_t v = scalar(n, [=] {
        if (lo < 0 && hi > 0 && rnd() % 3 == 0) { int64_t s = (int64_t)(rnd() % 9) - 4; if (s >= lo && s <= hi) return (uint64_t)s; }
        return (uint64_t)lo + ranged(0, (uint64_t)hi - (uint64_t)lo);
    });
    if (v < lo || v > hi) skip();
    return v;
}
uint64_t vc_size(uint64_t small, const char* n) {
    uint64_t v = scalar(n, [=] { return ranged(0, rnd() % 6 ? small : 30 * small); });   // (now and then much longer ones)
    if (v > (1ull << 28)) skip();
    return v;
}
uint64_t vc_split(uint64_t x, uint64_t lo, uint64_t hi) { if (x < lo || x > hi) fail("case split is exhaustive"); return x; }
static void* arr(size_t n, size_t es, const char* name) {
    size_t tot = n * es;
    unsigned char* p = (unsigned char*)malloc(tot ? tot : 0);
    if (replaying) {
        memset(p, 0, tot);
        if (pos < tape.size()) {
            Item& it = tape[pos++];
            memcpy(p, it.b.data(), std::min(tot, it.b.size()));
        }
    }
    else {
        int mode = rnd() % 6;
        for (size_t i = 0; i < tot; i++) {
            uint64_t r = rnd() >> 20;
            p[i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? "ab/.:*?\\ 01"[r % 11] : mode == 3 ? (r % 4 ? 32 + r % 95 : r & 0xff) : mode == 4 ? (r & 3) : (r & 0xff);
            if (es > 1 && mode == 4 && i % es) p[i] = 0;
        }
    }
    if (sh) {
        char b[300]; snprintf(b, sizeof b, "a %zu %zu %.200s ", n, es, name); std::string s = b;
        static const char* hx = "0123456789abcdef";
        for (size_t i = 0; i < tot; i++) { s += hx[p[i] >> 4]; s += hx[p[i] & 15]; }
        rec(s + "\n");
    }
    return p;
}
unsigned char* vc_bytes(size_t n, const char* name) { return (unsigned char*)arr(n, 1, name); }
void* vc_array(size_t n, size_t es, const char* name) { return arr(n, es, name); }
void vc_assume(bool b) { if (!b) skip(); }
void vc_check(bool b, const char* o) { if (!b) fail(o); }
void vc_cover(const char*) {}
bool vc_symbolic() { return false; }
bool vc_bounded() { return true; }
uint64_t vc_ghost_u64() { return rnd(); }
double vc_ghost_f64() { return (double)(rnd() % 1000); }
unsigned char* vc_ghost_bytes(size_t n) { return (unsigned char*)calloc(n ? n : 1, 1); }
void vc_replace(const char*, void*) {}
void vc_unmodelled(const char*) {}
void vc_loop(const char*, unsigned, void*) {}
void vc_havoc(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = rnd() >> 30; }
uint64_t vc_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vc_peek(const void* base, size_t idx, size_t es, bool c) {
    uint64_t v = 0;
    if (c) memcpy(&v, (const char*)base + idx * es, es);
    return v;
}
void vc_option(const char*, uint64_t) {}
uint64_t vc_obj_size(const void* p) { return __sanitizer_get_allocated_size ? __sanitizer_get_allocated_size(p) : 0; }
}

static int runOne(void (*f)()) {
    if (setjmp(skipj)) return 3;
    try {
        f();
    }
    catch (std::exception& e) {
        int st = 0;
        char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        fail((std::string("no uncaught exception: ") + (d ? d : typeid(e).name())).c_str());
    }
    catch (...) {
        fail("no uncaught exception");
    }
    return 0;
}
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void arm() { itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr); }

int main(int argc, char** argv) {
    if (argc < 2 || std::string(argv[1]) == "list") {
        for (auto& h : harnesses()) printf("%s\n", h.first.c_str());
        fflush(stdout);
        _exit(0);   // as every other run: no destructors of static objects
    }
    auto it = harnesses().find(argv[2]);
    if (it == harnesses().end()) { fprintf(stderr, "no harness %s\n", argv[2]); return 5; }
    if (std::string(argv[1]) == "replay") {
        std::ifstream in(argv[3]);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string k;
            ls >> k;
            Item x;
            if (k == "s") { x.kind = 's'; ls >> std::hex >> x.v >> x.name; tape.push_back(x); }
            else if (k == "a") {
                size_t n; std::string hex;
                ls >> n >> x.es >> x.name >> hex;
                x.kind = 'a';
                for (size_t i = 0; i + 1 < hex.size(); i += 2) x.b.push_back((unsigned char)strtoul(hex.substr(i, 2).c_str(), nullptr, 16));
                tape.push_back(x);
            }
            else if (k == "toolarge" || k == "nomodel") { printf("UNREPLAYABLE %s\n", line.c_str()); return 4; }
        }
        replaying = true;
        arm();
        int r = runOne(it->second);
        printf(r == 3 ? "OUT-OF-DOMAIN\n" : "PASSED\n");
        fflush(stdout);
        _exit(r);
    }
    // search HARNESS SEED TRIALS SECONDS OUT
    uint64_t seed = strtoull(argv[3], nullptr, 0);
    long trials = atol(argv[4]);
    double secs = atof(argv[5]);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = nowS();
    long done = 0, inDomain = 0;
    pid_t p = fork();
    if (p == 0) {
        long ok = 0;
        for (long t = 0; t < trials && nowS() - t0 < secs; t++) {
            rng = (seed + 1) * 0x9E3779B97F4A7C15ull ^ ((uint64_t)t + 1) * 0xD1B54A32D192ED03ull;
            for (int i = 0; i < 4; i++) rnd();
            sh->len = 0;
            if (t % 64 == 0) arm();
            if (runOne(it->second) == 0) ok++;
            sh->trial = t + 1;
            *(volatile long*)(sh->obligation + 392) = ok;
        }
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    done = sh->trial;
    inDomain = *(volatile long*)(sh->obligation + 392);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("SEARCHED %ld %ld\n", done, inDomain); return 0; }
    std::ofstream out(argv[6]);
    std::string what = sh->status == 1 ? std::string(sh->obligation) : WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? std::string("terminates (20 s of processor time used)") : std::string("no crash: signal ") + strsignal(WTERMSIG(st))) : "no crash or sanitizer report";
    out << "# " << what << "\n";
    out.write(sh->buf, sh->len);
    printf("FOUND %ld %s\n", done, what.c_str());
    return 1;
}
