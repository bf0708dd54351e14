// Contract primitives.  The same harness text is used twice:
//  * compiled to LLVM IR and executed symbolically by engine/vcx (all inputs arbitrary: a proof), and
//  * compiled natively against the real /repo sources (replay of counterexamples, search for failing inputs).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// ---- arbitrary inputs (recorded, replayable) -------------------------------------------------------------
uint64_t vc_u64(const char* name);
uint32_t vc_u32(const char* name);
uint16_t vc_u16(const char* name);
uint8_t vc_u8(const char* name);
bool vc_bool(const char* name);
double vc_f64(const char* name);
float vc_f32(const char* name);
uint64_t vc_range(uint64_t lo, uint64_t hi, const char* name);   // lo <= r <= hi (unsigned)
int64_t vc_irange(int64_t lo, int64_t hi, const char* name);     // lo <= r <= hi (signed)
// a size: unbounded (< 2^40) in proof mode; <= small in bounded / native mode
uint64_t vc_size(uint64_t small, const char* name);
// case split: forks on every value lo..hi of x (unsigned; x must be within); returns x as a literal in each case
uint64_t vc_split(uint64_t x, uint64_t lo, uint64_t hi);
// heap object of n bytes, arbitrary contents
unsigned char* vc_bytes(size_t n, const char* name);
// heap object of n elements of es bytes (es in 1,2,4,8), arbitrary contents, accessed as whole aligned elements
void* vc_array(size_t n, size_t es, const char* name);

// ---- specification ---------------------------------------------------------------------------------------
void vc_assume(bool);
void vc_check(bool, const char* obligation);
void vc_cover(const char* name);           // reachability: must be reached by a feasible path
bool vc_symbolic();                        // true inside the verifier
bool vc_bounded();                         // true in the bounded stand-in run (sizes capped, loops unrolled)
// arbitrary value used inside a contract stub (not an input of the program under proof)
uint64_t vc_ghost_u64();
double vc_ghost_f64();
unsigned char* vc_ghost_bytes(size_t n);
// replace calls of `fn` (demangled qualified name, optionally with argument list) by its contract `stub`
void vc_replace(const char* fn, void* stub);
// members of this class (prefix of the qualified name) that are not replaced, except constructors, are outside the verifier's reach
void vc_unmodelled(const char* prefix);
// cut loop number `idx` (source order) of `fn` with an inductive invariant.  `inv` is a function whose
// parameters are references named like the locals they stand for
void vc_loop(const char* fn, unsigned idx, void* inv);
// havoc `n` bytes at p (contract stubs)
void vc_havoc(void* p, size_t n);
// verifier options (e.g. "intlift"=1)
void vc_option(const char* name, uint64_t value);
// c ? a : b and c ? element idx (es bytes) of base : 0, without a branch and without a bounds obligation (invariants, ghost functions)
uint64_t vc_ite(bool c, uint64_t a, uint64_t b);
uint64_t vc_peek(const void* base, size_t idx, size_t es, bool c);
// the memory object p points into: size in bytes / is it valid to access [p,p+n)
uint64_t vc_obj_size(const void* p);
// ask the verifier to record an expected value for replay diagnostics
}

#ifndef VC_NATIVE
#define VC_HARNESS(name) extern "C" __attribute__((used)) void vc_h_##name()
#else
struct vc_reg {
    vc_reg(const char* n, void (*f)());
};
#define VC_HARNESS(name)                          \
    extern "C" void vc_h_##name();                \
    static vc_reg vc_reg_##name(#name, vc_h_##name); \
    extern "C" void vc_h_##name()
#endif

static inline int64_t vc_i64(const char* n) { return (int64_t)vc_u64(n); }
static inline int32_t vc_i32(const char* n) { return (int32_t)vc_u32(n); }
static inline int16_t vc_i16(const char* n) { return (int16_t)vc_u16(n); }
static inline int8_t vc_i8(const char* n) { return (int8_t)vc_u8(n); }

static inline unsigned char vc_at(const void* base, size_t idx, bool c) { return (unsigned char)vc_peek(base, idx, 1, c); }
static inline bool vc_imp(bool a, bool b) { return !a | b; }

// run `stmt`, yield true when it threw
#define VC_THROWS(stmt)        \
    ([&]() -> bool {           \
        try {                  \
            stmt;              \
        }                      \
        catch (...) {          \
            return true;       \
        }                      \
        return false;          \
    }())
