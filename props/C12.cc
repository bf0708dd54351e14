// C12: digests depend on the bytes added only; MD5 is the standard one
//@ tus: utils/MD5.cc utils/Hash.cc utils/MD4.cc utils/SHA1.cc exception/Exceptions.cc thread/Mutex.cc
//@ libs: eckit crypto
//@ assume: OpenSSL's MD4 and SHA1 and the xxHash library compute digests of the bytes handed to their update function (native runs use the real ones)
#include "vc.h"
#include <cstring>
#include <string>
#include "eckit/utils/MD5.h"
#include "eckit/exception/Exceptions.h"
using namespace eckit;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned char byte;
using Ctx = MD5::MD5_CTX;

// ------------------------------------------------------------------ RFC 1321, written from the text of the standard
static const u32 K[64] = {
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1,
    0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453,
    0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942,
    0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05,
    0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d,
    0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
static void rfc_block(u32* s, const byte* m) {
    u32 a = s[0], b = s[1], c = s[2], d = s[3];
    for (int i = 0; i < 64; i++) {
        u32 f;
        int g;
        if (i < 16) f = (b & c) | (~b & d), g = i;
        else if (i < 32) f = (b & d) | (c & ~d), g = (5 * i + 1) % 16;
        else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16;
        else f = c ^ (b | ~d), g = 7 * i % 16;
        u32 w = u32(m[4 * g]) | u32(m[4 * g + 1]) << 8 | u32(m[4 * g + 2]) << 16 | u32(m[4 * g + 3]) << 24;
        u32 t = a + f + w + K[i];
        int r = R[i / 16][i % 4];
        a = d, d = c, c = b;
        b = b + (t << r | t >> (32 - r));
    }
    s[0] += a, s[1] += b, s[2] += c, s[3] += d;
}
VC_HARNESS(block) {
    byte* m = vc_bytes(64, "block");
    u32 s[4], r[4];
    for (int i = 0; i < 4; i++) r[i] = s[i] = vc_u32("state");
    MD5::Transform(s, m);
    rfc_block(r, m);
    for (int i = 0; i < 4; i++) vc_check(s[i] == r[i], "a block is processed as RFC 1321 says");
}
// ------------------------------------------------------------------ which blocks are processed
static u64 bytesBefore;           // bytes added so far
static byte old[64];              // those of them still waiting for their block to be complete
static const byte* in;            // the bytes being added
static u64 inLen, blocks;         // blocks processed
static u64 Q;                     // any block, and any byte of it
static unsigned J;
static byte seen;
static Ctx* ctx;
static u32 last[4];               // state after the last block processed
static bool kept(const u32* s) { return (s[0] == last[0]) & (s[1] == last[1]) & (s[2] == last[2]) & (s[3] == last[3]); }
static byte message(u64 i) {      // i-th byte, counted from the start of the block begun
    unsigned have = bytesBefore & 63;
    return i < have ? old[i & 63] : in[i - have];
}
static void contract_transform(u32* state, const byte* block) {
    vc_check(state == ctx->state, "the state of this digest is used");
    vc_check(kept(state), "the state is the one left by the block before");
    seen = vc_ite(blocks == Q, block[J], seen);
    blocks++;
    for (int i = 0; i < 4; i++) state[i] = last[i] = vc_ghost_u64();
}
static bool inv_update(MD5::MD5_CTX*& context, const unsigned char*& input, unsigned int& inputLen, unsigned int& partLen, unsigned int& i) {
    unsigned have = bytesBefore & 63;
    return (context == ctx) & (input == in) & (u64(inputLen) == inLen) & (partLen == 64 - have) & (u64(i) <= inLen) & (blocks >= 1) &
           (u64(i) + have == blocks * 64) & vc_imp(blocks > Q, u64(seen) == vc_ite(Q * 64 + J < have, vc_peek(old, (Q * 64 + J) & 63, 1, true), vc_peek(in, Q * 64 + J - have, 1, (Q < blocks) & (Q * 64 + J >= have)))) &
           kept(ctx->state) & (blocks < (1ull << 40));
}
static Ctx* arbitrary() {
    Ctx* c = new Ctx;
    u64 bits = 8 * bytesBefore;
    c->count[0] = (u32)bits, c->count[1] = (u32)(bits >> 32);
    for (int i = 0; i < 4; i++) c->state[i] = last[i] = vc_u32("state");
    byte* b = vc_bytes(64, "waiting");
    memcpy(c->buffer, b, 64);
    memcpy(old, b, 64);
    blocks = 0;
    return ctx = c;
}
//@ harness update: time=200
VC_HARNESS(update) {
    vc_replace("eckit::MD5::Transform", (void*)contract_transform);
    vc_loop("eckit::MD5::Update", 0, (void*)inv_update);
    bytesBefore = vc_u64("bytes before");
    vc_assume(bytesBefore < (1ull << 60));
    Ctx* c = arbitrary();
    inLen = vc_bounded() ? vc_size(300, "length") : vc_range(0, 0xffffffff, "length");
    byte* d = vc_bytes(inLen, "data");
    in = d;
    Q = vc_range(0, 1 << 27, "block number");
    J = vc_range(0, 63, "byte of the block");
    seen = 0;
    u64 total = (bytesBefore & 63) + inLen;
    Ctx ref = *c;
    MD5::Update(c, d, (unsigned)inLen);
    if (!vc_symbolic()) {   // the same bytes, block by block
        byte* all = new byte[total + 1];
        for (u64 i = 0; i < total; i++) all[i] = message(i);
        for (u64 b = 0; b < total / 64; b++) rfc_block(ref.state, all + 64 * b);
        vc_check(!memcmp(ref.state, c->state, 16), "every byte is used once, in order, as soon as its block is complete");
    }
    else {
        vc_check(blocks == total / 64, "a block is processed as soon as it is complete");
        if (Q < blocks) vc_check(seen == message(64 * Q + J), "every byte is used once, in order, as soon as its block is complete");
        vc_check(kept(c->state), "the state is the one left by the last block");
    }
    u64 bits = 8 * (bytesBefore + inLen);
    vc_check(c->count[0] == (u32)bits && c->count[1] == (u32)(bits >> 32), "the bits added are counted");
    if (J < total % 64) vc_check(c->buffer[J] == message(total / 64 * 64 + J), "the bytes of an incomplete block wait");
}
//@ harness finish: time=300
VC_HARNESS(finish) {
    vc_replace("eckit::MD5::Transform", (void*)contract_transform);
    unsigned have = vc_split(vc_range(0, 63, "waiting bytes"), 0, 63);
    u64 n = vc_range(0, (1ull << 54) - 1, "complete blocks");
    bytesBefore = 64 * n + have;
    Ctx* c = arbitrary();
    Q = have < 56 ? 0 : vc_split(vc_range(0, 1, "block number"), 0, 1);
    J = vc_range(0, 63, "byte of the block");
    seen = 0;
    byte pad[128] = {0};
    memcpy(pad, old, have);
    pad[have] = 0x80;
    unsigned len = have < 56 ? 64 : 128;
    for (int i = 0; i < 8; i++) pad[len - 8 + i] = (byte)(8 * bytesBefore >> (8 * i));
    Ctx ref = *c;
    byte out[16];
    MD5::Final(out, c);
    if (!vc_symbolic()) {
        for (unsigned b = 0; b < len / 64; b++) rfc_block(ref.state, pad + 64 * b);
        memcpy(last, ref.state, 16);
    }
    else {
        vc_check(blocks == len / 64, "the padding completes a block");
        if (64 * Q < len) vc_check(seen == pad[64 * Q + J], "one bit, zeros and the length follow the bytes");
    }
    u32 d[4];
    for (int i = 0; i < 4; i++) d[i] = out[4 * i] | u32(out[4 * i + 1]) << 8 | u32(out[4 * i + 2]) << 16 | u32(out[4 * i + 3]) << 24;
    vc_check(kept(d), "the digest is the state, low byte first");
}
// ------------------------------------------------------------------ the interface of every digest
// A context is followed through a number kept in its first bytes: T[0] when empty, T[k] after the k-th update.
static u64 T[4];
static int updates, inits;
static const void* wantBuf;
static u64 wantLen;
static bool capture;
static byte captured[16];
static u64 tok(const void* c) {
    u64 t;
    memcpy(&t, c, 8);
    return t;
}
static void mark(void* c, u64 t) { memcpy(c, &t, 8); }
static void c_init(void* c) { mark(c, T[0]), inits++; }
static void c_update(void* c, const void* b, u64 n) {
    vc_check(updates < 3 && tok(c) == T[updates], "what was added before is still there");
    vc_check(n == wantLen && (capture || b == wantBuf), "the bytes added, all and only they, are digested");
    if (capture) memcpy(captured, b, n);
    mark(c, T[++updates]);
}
static byte digestByte(u64 t, unsigned i) { return (byte)(t >> (8 * (i % 8))) ^ (byte)(i / 8); }
template <int N>
static void c_final(byte* out, void* c) {
    u64 t = tok(c);
    for (int i = 0; i < N; i++) out[i] = digestByte(t, i);
    mark(c, vc_ghost_u64());   // nothing is promised about the context afterwards
}
static const char* hexd = "0123456789abcdef";
template <int N>
static void shows(const std::string& s, u64 t) {
    vc_check(s.size() == 2 * N, "two characters for every byte");
    bool ok = true;
    for (int i = 0; i < N; i++) ok = ok & (s[2 * i] == hexd[digestByte(t, N == 8 ? 7 - i : i) >> 4]) & (s[2 * i + 1] == hexd[digestByte(t, N == 8 ? 7 - i : i) & 15]);
    vc_check(ok, "the digest is that of everything added since the last reset");
}
static int i_init(void* c) { c_init(c); return 1; }
static int i_update(void* c, const void* b, size_t n) { c_update(c, b, n); return 1; }
template <int N>
static int i_final(byte* out, void* c) { c_final<N>(out, c); return 1; }
static void m_update(void* c, const byte* b, unsigned n) { c_update(c, b, n); }
static void* x_create() { return new u64; }
static int x_free(void*) { return 0; }
static int x_reset(void* c, unsigned long long seed) { vc_check(seed == 0, "seed"); c_init(c); return 0; }
static u64 x_digest(const void* c) { return tok(c); }
static u64 x_whole(const void* b, size_t n, unsigned long long seed) {
    vc_check(seed == 0 && b == wantBuf && n == wantLen, "the bytes given are digested");
    return T[1];
}

#include "eckit/utils/MD4.h"
#include "eckit/utils/SHA1.h"
#include "eckit/utils/xxHashing.cc"
static void library() {
    vc_replace("eckit::MD5::Init", (void*)c_init);
    vc_replace("eckit::MD5::Update", (void*)m_update);
    vc_replace("eckit::MD5::Final", (void*)c_final<16>);
    vc_replace("MD4_Init", (void*)i_init);
    vc_replace("MD4_Update", (void*)i_update);
    vc_replace("MD4_Final", (void*)i_final<16>);
    vc_replace("XXH_INLINE_XXH64_createState", (void*)x_create);
    vc_replace("XXH_INLINE_XXH64_freeState", (void*)x_free);
    vc_replace("XXH_INLINE_XXH64_reset", (void*)x_reset);
    vc_replace("XXH_INLINE_XXH64_update", (void*)i_update);
    vc_replace("XXH_INLINE_XXH64_digest", (void*)x_digest);
    vc_replace("XXH_INLINE_XXH64", (void*)x_whole);
    vc_replace("SHA1_Init", (void*)i_init);
    vc_replace("SHA1_Update", (void*)i_update);
    vc_replace("SHA1_Final", (void*)i_final<20>);
    for (int i = 0; i < 4; i++) T[i] = vc_ghost_u64();
    updates = inits = 0;
    capture = false;
}
static std::string text(const byte* b, size_t n) { return std::string((const char*)b, n); }
// an MD5 goes on from the finalised state when bytes are added after its digest was asked for (md5_goes_on)
template <class H>
static const bool once = std::is_same<H, MD5>::value;
// any operations in any order: the digest is the one of a fresh object given the bytes added since the last reset
template <class H>
static void histories() {
    H h;
    std::string all;
    unsigned n = vc_range(0, 8, "operations");
    for (unsigned i = 0; i < n; i++) {
        unsigned op = vc_range(0, 5, "operation");
        if (op <= 2) {
            size_t l = vc_size(80, "length");
            byte* d = vc_bytes(l, "data");
            all += text(d, l);
            if (op == 0) h.add(d, l);
            else if (op == 1) h.add(text(d, l));
            else h << text(d, l);
        }
        else if (op == 3) {
            H f;
            vc_check(h.digest() == f.compute(all.data(), all.size()), "the digest is that of everything added since the last reset");
            if (once<H>) h.reset(), all.clear();
        }
        else if (op == 4) h.reset(), all.clear();
        else {
            size_t l = vc_size(80, "length");
            byte* d = vc_bytes(l, "data");
            H f(d, l);
            vc_check(h.compute(d, l) == f.digest(), "a digest computed at once is the one computed in steps");
        }
    }
    H f(all);
    vc_check(h.digest() == f.digest(), "the digest is that of everything added since the last reset");
}
template <class H, int N, class C>
static void interface(C context, u64 longest) {
    if (!vc_symbolic()) return histories<H>();
    library();
    H& h = *new H();
    vc_check(tok(context(h)) == T[0], "a new digest is empty");
    bool before = !once<H> && vc_bool("digest asked before anything is added");
    if (before) shows<N>(h.digest(), T[0]);
    byte* buf = vc_bytes(8, "data");
    // first addition
    wantBuf = buf;
    wantLen = vc_u64("length");
    bool refused = VC_THROWS(h.update(buf, wantLen));
    vc_check(refused == (long(wantLen) > 0 && wantLen > longest), "only a length that cannot be handled is refused");
    if (refused || long(wantLen) <= 0) {
        vc_check(updates == 0, "nothing is added");
        shows<N>(h.digest(), T[0]);
        return;
    }
    vc_check(updates == 1, "the bytes are added once");
    bool between = !once<H> && vc_bool("digest asked in between");
    if (between) {
        shows<N>(h.digest(), T[1]);
        if (vc_bool("twice")) shows<N>(h.digest(), T[1]);
    }
    bool more = vc_bool("more");
    if (more) {
        wantBuf = buf + 1, wantLen = 7;
        h.update(buf + 1, 7);
        vc_check(updates == 2, "the bytes are added once");
    }
    if (vc_bool("digest")) {
        shows<N>(h.digest(), T[more ? 2 : 1]);
        if (vc_bool("twice")) shows<N>(h.digest(), T[more ? 2 : 1]);
    }
    h.reset();
    vc_check(tok(context(h)) == T[0], "reset forgets everything");
    shows<N>(h.digest(), T[0]);
}
template <class H, int N>
static void at_once(u64 longest) {
    if (!vc_symbolic()) return histories<H>();
    library();
    H& h = *new H();
    byte* buf = vc_bytes(8, "data");
    wantBuf = buf;
    wantLen = vc_range(1, 1ull << 50, "length");
    std::string s;
    bool refused = VC_THROWS(s = h.compute(buf, wantLen));
    vc_check(refused == (wantLen > longest), "only a length that cannot be handled is refused");
    if (!refused) vc_check(updates == (N == 8 ? 0 : 1), "the bytes are digested once"), shows<N>(s, T[1]);
    updates = 0;
    shows<N>(h.digest(), T[0]);
}
VC_HARNESS(md5) { interface<MD5, 16>([](MD5& h) { return &h.s_; }, 0xffffffff); }
VC_HARNESS(md5_goes_on) {
    byte a[3] = {1, 2, 3}, b[4] = {4, 5, 6, 7};
    MD5 h, f;
    h.add(a, 3), f.add(a, 3);
    h.digest();
    h.add(b, 4), f.add(b, 4);
    vc_check(h.digest() == f.digest(), "bytes added to an MD5 after its digest was asked for");
}
VC_HARNESS(md5_at_once) { at_once<MD5, 16>(0xffffffff); }
VC_HARNESS(md4) { interface<eckit::MD4, 16>([](eckit::MD4& h) { return &h.ctx_; }, ~0ull); }
VC_HARNESS(md4_at_once) { at_once<eckit::MD4, 16>(~0ull); }
VC_HARNESS(sha1) { interface<eckit::SHA1, 20>([](eckit::SHA1& h) { return &h.ctx_; }, ~0ull); }
VC_HARNESS(sha1_at_once) { at_once<eckit::SHA1, 20>(~0ull); }
VC_HARNESS(xxh64) { interface<xxHash, 8>([](xxHash& h) { return h.ctx_->state_; }, ~0ull); }
VC_HARNESS(xxh64_at_once) { at_once<xxHash, 8>(~0ull); }
// ------------------------------------------------------------------ values
template <class H, class V>
static void value(V x) {
    if (!vc_symbolic()) {
        H a, b, c;
        a.add(x);
        b << x;
        c.add(&x, sizeof x);
        vc_check(a.digest() == c.digest() && b.digest() == c.digest(), "a value is digested as its bytes");
        return;
    }
    library();
    H& h = *new H();
    capture = true;
    wantLen = sizeof(V);
    if (vc_bool("shift")) h << x;
    else h.add(x);
    vc_check(updates == 1 && !memcmp(captured, &x, sizeof x), "a value is digested as its bytes");
}
template <class H>
static void values() {
    switch (vc_split(vc_range(0, 11, "type"), 0, 11)) {
        case 0: return value<H>((char)vc_u8("x"));
        case 1: return value<H>((unsigned char)vc_u8("x"));
        case 2: return value<H>(vc_bool("x"));
        case 3: return value<H>((int)vc_u32("x"));
        case 4: return value<H>((unsigned)vc_u32("x"));
        case 5: return value<H>((short)vc_u16("x"));
        case 6: return value<H>((unsigned short)vc_u16("x"));
        case 7: return value<H>((long)vc_u64("x"));
        case 8: return value<H>((unsigned long)vc_u64("x"));
        case 9: return value<H>((long long)vc_u64("x"));
        case 10: return value<H>((unsigned long long)vc_u64("x"));
        default: return value<H>(vc_f64("x"));
    }
}
VC_HARNESS(values_md5) { values<MD5>(); }
VC_HARNESS(values_sha1) { values<eckit::SHA1>(); }
template <class H>
static void constructors(u64 (*content)(H&)) {
    size_t n = vc_size(40, "length");
    byte* d = vc_bytes(n, "data");
    vc_assume(n > 0 && n < (1ull << 32));
    if (!vc_symbolic()) {
        H a(d, n), b(text(d, n)), c;
        c.add(d, n);
        vc_check(a.digest() == c.digest() && b.digest() == c.digest(), "constructed from bytes is the digest of those bytes");
        return;
    }
    library();
    wantBuf = d, wantLen = n;
    H& h = *new H(d, n);
    vc_check(inits == 1 && updates == 1 && content(h) == T[1], "constructed from bytes is the digest of those bytes");
}
VC_HARNESS(constructors_md5) { constructors<MD5>([](MD5& h) { return tok(&h.s_); }); }
VC_HARNESS(constructors_md4) { constructors<eckit::MD4>([](eckit::MD4& h) { return tok(&h.ctx_); }); }
VC_HARNESS(constructors_sha1) { constructors<eckit::SHA1>([](eckit::SHA1& h) { return tok(&h.ctx_); }); }
VC_HARNESS(constructors_xxh64) { constructors<xxHash>([](xxHash& h) { return tok(h.ctx_->state_); }); }
// a text is added as its characters, all of them
template <class H>
static void texts(u64 (*content)(H&)) {
    size_t n = vc_size(40, "length");
    byte* d = vc_bytes(n, "data");
    vc_assume(n < (1ull << 32));
    if (!vc_symbolic()) {
        std::string s = text(d, n);
        H a, b, c, e;
        a.add(s);
        b << s;
        c.add(d, n);
        e.add(s.c_str());
        vc_check(a.digest() == c.digest() && b.digest() == c.digest(), "a text is digested as its characters");
        vc_check(s.find('\0') != std::string::npos || e.digest() == c.digest(), "a C string is digested as its characters");
        return;
    }
    library();
    std::string s((const char*)d, n);
    wantBuf = (byte*)s.data(), wantLen = n;
    H& h = *new H();
    if (vc_bool("shift")) h << s;
    else h.add(s);
    vc_check((updates == 1 && content(h) == T[1]) || n == 0, "a text is digested as its characters");
}
VC_HARNESS(texts_md5) { texts<MD5>([](MD5& h) { return tok(&h.s_); }); }
VC_HARNESS(texts_md4) { texts<eckit::MD4>([](eckit::MD4& h) { return tok(&h.ctx_); }); }
VC_HARNESS(texts_sha1) { texts<eckit::SHA1>([](eckit::SHA1& h) { return tok(&h.ctx_); }); }
VC_HARNESS(texts_xxh64) { texts<xxHash>([](xxHash& h) { return tok(h.ctx_->state_); }); }
