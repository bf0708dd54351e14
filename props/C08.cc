// C08: bit-level input/output and Base64
//@ tus: io/BitIO.cc io/Base64.cc io/Length.cc io/Offset.cc io/DataHandle.cc serialisation/Streamable.cc exception/Exceptions.cc thread/Mutex.cc
#include "vc.h"
#include "eckit/io/BitIO.h"
#include "eckit/io/Base64.h"
#include "eckit/io/DataHandle.h"
#include "eckit/exception/Exceptions.h"
using namespace eckit;
typedef unsigned char byte;
typedef unsigned long long u64;

// a byte source / sink
static byte* src;
static size_t srcLen, srcPos;
static byte sink[128];
static size_t sunk, opens, closes;
struct Tape : DataHandle {
    void print(std::ostream&) const override {}
    Length openForRead() override { opens++; return srcLen; }
    void openForWrite(const Length&) override { opens++; }
    void close() override { closes++; }
    long read(void* p, long n) override {
        if (srcPos >= srcLen) return 0;
        *(byte*)p = src[srcPos++];
        return 1;
    }
    long write(const void* p, long n) override {
        if (sunk < sizeof(sink)) sink[sunk] = *(const byte*)p;
        sunk++;
        return 1;
    }
};
// branch-free helpers: one verification condition instead of many paths
static unsigned bit(u64 v, size_t i) { return (v >> (i & 63)) & 1; }
static unsigned sel(bool c, unsigned a, unsigned b) { return (unsigned(c) & a) | (unsigned(!c) & b); }   // of single bits
static bool either(bool a, bool b) { return a | b; }
static u64 low(size_t n) { return ((1ull << (n & 63)) - 1) | (0ull - u64((n >> 6) & 1)); }   // n <= 64

// ------------------------------------------------------------------ writing
// the bits still in the buffer go out most significant first, the last byte padded with zeros
VC_HARNESS(flush) {
    Tape t;
    sunk = 0;
    BitIO b(t);
    b.used_ = vc_split(vc_range(0, 64, "used"), 0, 64);
    b.buffer_ = vc_u64("buffer");
    vc_assume((b.buffer_ & ~low(b.used_)) == 0);
    u64 v = b.buffer_;
    size_t used = b.used_, k = vc_range(0, 63, "k");
    b.flush();
    vc_check(b.used_ == 0 && b.buffer_ == 0, "nothing is left in the buffer");
    vc_check(sunk == (used + 7) / 8, "as many bytes as the bits need");
    if (k < 8 * sunk) {
        unsigned bit = (sink[k / 8] >> (7 - k % 8)) & 1;
        vc_check(bit == (k < used ? (v >> (used - 1 - k)) & 1 : 0), "the bits go out in order, padded with zeros");
    }
}
// ghost: the bits handed to the contract of flush, bit number K of them
static size_t K, gone, used0, nbits0, bits0;
static u64 buf0, code0;
static unsigned bitK;
static BitIO* it;
static void contract_flush(BitIO* self) {
    vc_check(self->used_ % 8 == 0, "only whole bytes go out before the end");
    if (K >= gone && K - gone < self->used_) bitK = (self->buffer_ >> (self->used_ - 1 - (K - gone))) & 1;
    gone += self->used_;
    self->used_ = 0;
    self->buffer_ = 0;
}
static unsigned wanted(size_t k) {   // bit k of: what was in the buffer, then the code
    return sel(k < used0, bit(buf0, used0 - 1 - k), bit(code0, nbits0 - 1 - (k - used0)));
}
static bool inv_write(BitIO*& self, size_t& code, size_t& nbits) {
    size_t done = nbits0 - nbits;
    return (self == it) & (code == code0) & (nbits <= nbits0) & (it->used_ <= 64) & ((it->buffer_ & ~low(it->used_)) == 0) & ((gone == 0) | (gone == 64)) &
           (gone + it->used_ == used0 + done) & (it->bits_ == bits0 + done) & it->write_ & it->opened_ & (opens == 1) &
           either(K >= used0 + done, sel(K < gone, bitK, bit(it->buffer_, it->used_ - 1 - (K - gone))) == wanted(K));
}
VC_HARNESS(write) {
    vc_replace("eckit::BitIO::flush", (void*)contract_flush);
    vc_loop("eckit::BitIO::write", 0, (void*)inv_write);
    Tape t;
    sunk = opens = 0;
    BitIO b(t);
    it = &b;
    used0 = b.used_ = vc_range(0, 64, "used");
    buf0 = b.buffer_ = vc_u64("buffer");
    vc_assume((buf0 & ~low(used0)) == 0);
    bits0 = b.bits_ = vc_size(4096, "bits");
    code0 = vc_u64("code");
    nbits0 = vc_range(0, 64, "nbits");
    K = vc_range(0, 127, "k");
    gone = 0;
    bitK = 0;
    if (!vc_symbolic() && used0 % 8) used0 = b.used_ = 0, buf0 = b.buffer_ = 0;
    b.write(code0, nbits0);
    vc_check(b.bitCount() == bits0 + nbits0, "the bits written are counted");
    vc_check(b.byteCount() == (bits0 + nbits0 + 7) / 8, "the bytes they take are counted");
    if (vc_symbolic()) {
        vc_check(gone + b.used_ == used0 + nbits0, "no bit is lost or added");
        if (K < used0 + nbits0)
            vc_check(sel(K < gone, bitK, bit(b.buffer_, b.used_ - 1 - (K - gone))) == wanted(K), "the bits follow those already written, most significant first");
    }
    else {
        b.flush();
        vc_check(sunk == (used0 + nbits0 + 7) / 8, "no bit is lost or added");
        if (K < used0 + nbits0) vc_check(((sink[K / 8] >> (7 - K % 8)) & 1u) == wanted(K), "the bits follow those already written, most significant first");
    }
    b.write_ = b.opened_ = false;
}
VC_HARNESS(destructor) {
    Tape t;
    sunk = closes = 0;
    u64 v = vc_u8("v");
    { BitIO b(t); b.write(v, 8); }
    vc_check(sunk == 1 && sink[0] == v && closes == 1, "the end flushes and closes");
}
// ------------------------------------------------------------------ reading
static unsigned streamBit(size_t k) {   // bit k of: what is in the buffer, then the source (17 spare bytes lie behind it)
    size_t b = (k - used0) & 127;
    return sel(k < used0, bit(buf0, 63 - k), (src[b / 8] >> (7 - b % 8)) & 1);
}
static bool pad0;
static bool inv_read(BitIO*& self, size_t& nbits, size_t& result, size_t& count, size_t& asked) {
    size_t done = nbits0 - nbits, taken = srcPos - bits0;
    return (self == it) & (asked == nbits0) & (nbits <= nbits0) & (count == done) & (it->used_ <= 64) & (srcPos >= bits0) & (srcPos <= srcLen) & (taken <= 16) &
           (done + it->used_ == used0 + 8 * taken) & ((result & ~low(done)) == 0) & it->opened_ & (it->padded_ == pad0) &
           either(!it->eof_, srcPos == srcLen) &
           either(K >= done, bit(result, done - 1 - K) == streamBit(K)) &
           either((K < done) | (K >= done + it->used_), bit(it->buffer_, 63 - (K - done)) == streamBit(K));
}
VC_HARNESS(read) {
    vc_loop("eckit::BitIO::read", 0, (void*)inv_read);
    Tape t;
    BitIO b(t, vc_bool("padded"));
    it = &b;
    bool padded = pad0 = b.padded_;
    b.opened_ = true;
    used0 = b.used_ = vc_range(0, 64, "used");
    buf0 = b.buffer_ = vc_u64("buffer");
    srcLen = vc_size(16, "length");
    bits0 = srcPos = 0;   // the source starts where the reader is
    src = vc_bytes(srcLen + 17, "source");
    b.eof_ = vc_bool("eof");
    vc_assume(!b.eof_ || srcPos == srcLen);
    nbits0 = vc_range(1, 64, "nbits");
    K = vc_range(0, 127, "k");
    size_t marker = vc_bool("marker") ? 300 : 0;
    size_t avail = used0 + 8 * (srcLen - srcPos < 16 ? srcLen - srcPos : 16);
    size_t r = 0;
    try {
        r = b.read(nbits0, marker);
    }
    catch (ReadError&) {
        vc_check(avail < nbits0 && marker == 0, "reading fails only when the bits are not there");
        return;
    }
    if (avail >= nbits0) {
        vc_cover("enough");
        vc_check((r & ~low(nbits0)) == 0, "the result has the number of bits asked for");
        if (K < nbits0) vc_check(bit(r, nbits0 - 1 - K) == streamBit(K), "the bits come in order, most significant first");
        vc_check(nbits0 + b.used_ == used0 + 8 * (srcPos - bits0), "the bits not asked for are kept");
        if (K >= nbits0 && K < nbits0 + b.used_) vc_check(((b.buffer_ >> (63 - (K - nbits0))) & 1) == streamBit(K), "the bits not asked for are kept");
    }
    else if (padded && avail > 0) {
        vc_cover("padded");
        vc_check(!b.padded_ && b.used_ == 0, "padding happens once");
        if (K < nbits0) vc_check(bit(r, nbits0 - 1 - K) == sel(K < avail, streamBit(K), 0), "a short end is padded with zeros");
    }
    else {
        vc_cover("end");
        vc_check(marker != 0 && r == marker, "the end is reported");
    }
}
// ------------------------------------------------------------------ Base64
VC_HARNESS(alphabet) {
    Base64 n, u(true);
    const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (size_t i = 0; i < 64; i++) {
        char c = a[i], d = c == '+' ? '-' : c == '/' ? '_' : c;
        vc_check(n.encode_[i] == (byte)c && n.decode_[(byte)c] == i, "the standard alphabet");
        vc_check(u.encode_[i] == (byte)d && u.decode_[(byte)d] == i, "the alphabet for names");
    }
}
static size_t len, step;                 // input bytes, input characters/groups consumed so far
static unsigned srcBit(size_t k) { return (src[(k >> 3) & 63] >> (7 - (k & 7))) & 1; }   // the source has 64 bytes, zero behind len
static unsigned sextet(size_t j) {       // bits 6j..6j+5 of the source, zero padded
    unsigned v = 0;
    size_t b = 6 * j;
    for (int i = 0; i < 6; i++, b++) v = 2 * v | srcBit(b);
    return v;
}
static void source(size_t spare) {
    len = vc_size(9, "length");
    vc_assume(len <= spare);
    src = vc_bytes(64, "data");
    for (size_t i = 0; i < 64; i++) src[i] = src[i] & (0 - unsigned(i < len));
}
static size_t groups() { return (8 * len + 5) / 6; }
static size_t groupsOf() { return (len + 2) / 3 * 4; }
static size_t contract_read6(BitIO* self, size_t n, size_t eoi) {
    vc_check(n == 6 && eoi > 63, "six bits at a time");
    if (step >= groups()) {
        vc_check(self->padded_, "the last bits are padded");
        self->bits_ = 8 * len;
        return eoi;
    }
    return sextet(step++);
}
static size_t J;
static byte charJ;
static void contract_write8(BitIO* self, size_t code, size_t n) {
    vc_check(n == 8 && self->bits_ % 8 == 0, "whole characters");
    if (self->bits_ == 8 * J) charJ = (byte)code;
    self->bits_ += 8;
}
static void contract_nothing(BitIO*) {}
static Base64* b64;
static bool inv_encode(Base64*& self, BitIO& bin, BitIO& bout) {
    return (self == b64) & (step <= groups()) & (bout.bits_ == 8 * step) & !bin.write_ & !bin.opened_ & !bout.write_ & !bout.opened_ & bin.padded_ &
           either(J >= step, charJ == b64->encode_[sextet(J)]);
}
VC_HARNESS(encode) {
    vc_replace("eckit::BitIO::read", (void*)contract_read6);
    vc_replace("eckit::BitIO::write", (void*)contract_write8);
    vc_replace("eckit::BitIO::flush", (void*)contract_nothing);
    vc_loop("eckit::Base64::encode", 0, (void*)inv_encode);
    source(48);
    J = vc_range(0, 63, "j");
    srcLen = len;
    srcPos = 0;
    step = 0;
    sunk = 0;
    charJ = 0;
    Base64 b(vc_bool("url"));
    b64 = &b;
    Tape in, out;
    size_t n = b.encode(in, out);
    vc_check(n == groupsOf(), "four characters for every three bytes begun");
    if (J < n) {
        byte want = J < groups() ? b.encode_[sextet(J)] : '=';
        vc_check((vc_symbolic() ? charJ : J < sizeof(sink) ? sink[J] : want) == want, "every six bits give their character, the rest is padding");
    }
}
// decoding the encoding of any bytes
static byte text(size_t j) {
    unsigned m = 0u - unsigned(j < groups());
    return (b64->encode_[sextet(j) & 63] & m) | ('=' & ~m);
}
static size_t contract_read8(BitIO* self, size_t n, size_t eoi) {
    vc_check(n == 8 && eoi > 255, "one character at a time");
    if (step >= groupsOf()) return eoi;
    return text(step++);
}
static unsigned bitOut;
static void contract_writeBits(BitIO* self, size_t code, size_t n) {
    vc_check(n <= 6 && code < 64, "at most six bits at a time");
    bool here = (K >= self->bits_) & (K - self->bits_ < n);
    bitOut = sel(here, bit(code, n - 1 - (K - self->bits_)), bitOut);
    self->bits_ += n;
}
static bool inv_decode(Base64*& self, BitIO& bin, BitIO& bout, size_t& c, size_t& prev) {
    size_t total = groupsOf();
    // c is character number step-1 (or the end); prev the one before (or none); all before prev are written
    bool end = c == 256;
    size_t i = step - size_t(!end), w = i - size_t(i != 0);
    return (self == b64) & (step <= total) & !bin.write_ & !bin.opened_ & !bout.write_ & !bout.opened_ & either(!end, step == total) &
           either(end, (step != 0) & (c == text(step - 1))) & (i <= groups()) & either(i != 0, prev == 256) & either(i == 0, prev == text(i - 1)) &
           (bout.bits_ == 6 * w) & either(K >= 6 * w, bitOut == srcBit(K)) & (bitOut <= 1);
}
VC_HARNESS(decode) {
    vc_replace("eckit::BitIO::read", (void*)contract_read8);
    vc_replace("eckit::BitIO::write", (void*)contract_writeBits);
    vc_replace("eckit::BitIO::flush", (void*)contract_nothing);
    vc_loop("eckit::Base64::decode", 0, (void*)inv_decode);
    source(48);
    K = vc_range(0, 511, "k");
    vc_assume(K < 8 * len);
    step = 0;
    bitOut = 0;
    Base64 b(vc_bool("url"));
    b64 = &b;
    Tape in, out;
    byte* data = src;
    byte enc[64];
    if (!vc_symbolic()) {   // hand the encoded text to the real reader
        size_t n = groupsOf();
        for (size_t i = 0; i < n; i++) enc[i] = text(i);
        src = enc;
        srcLen = n;
        srcPos = sunk = 0;
    }
    size_t n = b.decode(in, out);
    src = data;
    vc_check(n == len, "as many bytes as were encoded");
    vc_check((vc_symbolic() ? bitOut : (sink[K / 8] >> (7 - K % 8)) & 1u) == srcBit(K), "the bytes encoded come back");
}
