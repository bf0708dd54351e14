// C05: the tagged binary stream
//@ tus: serialisation/Stream.cc serialisation/MemoryStream.cc serialisation/ResizableMemoryStream.cc serialisation/BadTag.cc io/Buffer.cc maths/Functions.cc exception/Exceptions.cc thread/Mutex.cc
//@ assume: htonl/ntohl reverse the four bytes (little-endian host)
#include "vc.h"
#include <cstring>
#include "eckit/serialisation/Stream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/BadTag.h"
#include "eckit/io/Buffer.h"
#include "eckit/maths/Functions.h"
#include "eckit/exception/Exceptions.h"
using namespace eckit;
typedef unsigned char byte;

static byte* mem;
static size_t size, pos, k;
static byte old;
static void setup(size_t room) {
    size = vc_size(80, "size");
    pos = vc_size(40, "pos");
    k = vc_size(80, "k");
    vc_assume(pos + room <= size);
    mem = vc_bytes(size, "memory");
    old = k < size ? mem[k] : 0;
}
// the record [pos,end) read with less than all of it available
template <class T> static void truncated(size_t end) {
    size_t cut = vc_size(80, "cut");
    vc_assume(pos <= cut && cut < end);
    MemoryStream r(static_cast<const void*>(mem), cut);
    r.position_ = pos;
    T y = T();
    vc_check(VC_THROWS(r >> y), "a truncated record is not accepted");
}
template <class T> static void roundtrip(T x, byte tag, size_t len) {
    setup(16);
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    w << x;
    size_t end = w.position();
    vc_check(end == pos + len && w.bytesWritten() == (long long)len, "the record has its fixed length");
    if (k < size && (k < pos || k >= end)) vc_check(mem[k] == old, "nothing outside the record is written");
    vc_check(mem[pos] == tag, "the record starts with the tag of its type");
    MemoryStream r(static_cast<const void*>(mem), size);
    r.position_ = pos;
    T y = T();
    r >> y;
    vc_check(y == x, "the value read is the value written");
    vc_check(r.position() == end, "reading consumes exactly the record");
    truncated<T>(end);
}
static uint32_t be(size_t at) { return (uint32_t(mem[at]) << 24) | (uint32_t(mem[at + 1]) << 16) | (uint32_t(mem[at + 2]) << 8) | mem[at + 3]; }

VC_HARNESS(of_char) { char x = (char)vc_i8("x"); roundtrip<char>(x, 3, 2); vc_check(mem[pos + 1] == (byte)x, "layout"); }
VC_HARNESS(of_uchar) { byte x = vc_u8("x"); roundtrip<byte>(x, 4, 2); vc_check(mem[pos + 1] == x, "layout"); }
VC_HARNESS(of_int) { int x = vc_i32("x"); roundtrip<int>(x, 5, 5); vc_check(be(pos + 1) == (uint32_t)x, "most significant byte first"); }
VC_HARNESS(of_uint) { unsigned x = vc_u32("x"); roundtrip<unsigned>(x, 6, 5); vc_check(be(pos + 1) == x, "most significant byte first"); }
VC_HARNESS(of_short) { short x = vc_i16("x"); roundtrip<short>(x, 7, 5); vc_check(be(pos + 1) == (uint16_t)x, "most significant byte first"); }
VC_HARNESS(of_ushort) { unsigned short x = vc_u16("x"); roundtrip<unsigned short>(x, 8, 5); vc_check(be(pos + 1) == x, "most significant byte first"); }
// "long in eckit is always 32 bit" (tests/serialisation): values beyond are not carried
VC_HARNESS(of_long) { long x = vc_i32("x"); roundtrip<long>(x, 9, 5); vc_check(be(pos + 1) == (uint32_t)x, "most significant byte first"); }
VC_HARNESS(of_ulong) { unsigned long x = vc_u32("x"); roundtrip<unsigned long>(x, 10, 5); vc_check(be(pos + 1) == x, "most significant byte first"); }
VC_HARNESS(of_longlong) { long long x = vc_i64("x"); roundtrip<long long>(x, 11, 9); vc_check(be(pos + 1) == (uint32_t)((uint64_t)x >> 32) && be(pos + 5) == (uint32_t)x, "most significant byte first"); }
VC_HARNESS(of_ulonglong) { unsigned long long x = vc_u64("x"); roundtrip<unsigned long long>(x, 12, 9); vc_check(be(pos + 1) == (uint32_t)(x >> 32) && be(pos + 5) == (uint32_t)x, "most significant byte first"); }
VC_HARNESS(of_bool) { roundtrip<bool>(vc_bool("x"), 5, 5); }
VC_HARNESS(of_double) {
    uint64_t b = vc_u64("bits");
    double x, y = 0;
    memcpy(&x, &b, 8);
    setup(16);
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    w << x;
    size_t end = w.position();
    vc_check(end == pos + 9, "the record has its fixed length");
    if (k < size && (k < pos || k >= end)) vc_check(mem[k] == old, "nothing outside the record is written");
    vc_check(mem[pos] == 14 && be(pos + 1) == (uint32_t)b && be(pos + 5) == (uint32_t)(b >> 32), "two words, most significant byte first in each");
    MemoryStream r(static_cast<const void*>(mem), size);
    r.position_ = pos;
    r >> y;
    uint64_t c;
    memcpy(&c, &y, 8);
    vc_check(c == b, "the value read has the bits of the value written");
    vc_check(r.position() == end, "reading consumes exactly the record");
    truncated<double>(end);
}
VC_HARNESS(of_string) {
    size_t n = vc_size(24, "length"), i = vc_size(24, "i");
    byte* c = vc_bytes(n, "text");
    setup(0);
    vc_assume(n < 0x7fffff00 && pos + n + 5 <= size);
    std::string x((const char*)c, n), y;
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    w << x;
    size_t end = w.position();
    vc_check(end == pos + 5 + n, "the record is as long as the text");
    vc_check(mem[pos] == 15 && be(pos + 1) == n, "tag and length come first");
    if (k < size && (k < pos || k >= end)) vc_check(mem[k] == old, "nothing outside the record is written");
    MemoryStream r(static_cast<const void*>(mem), size);
    r.position_ = pos;
    r >> y;
    vc_check(y.size() == n, "the text read has the length of the text written");
    if (i < n) vc_check((byte)y[i] == c[i], "the text read is the text written");
    vc_check(r.position() == end, "reading consumes exactly the record");
    r.position_ = pos;
    std::string z;
    vc_check(r.next(z) && z.size() == n && r.position() == end, "iteration delivers the text");
    if (i < n) vc_check((byte)z[i] == c[i], "iteration delivers the text");
}
VC_HARNESS(of_blob) {
    size_t n = vc_size(24, "length"), i = vc_size(24, "i");
    byte* c = vc_bytes(n, "blob");
    setup(0);
    vc_assume(n < 0x7fffff00 && pos + n + 5 <= size);
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    w.writeBlob(c, n);
    size_t end = w.position();
    vc_check(end == pos + 5 + n, "the record is as long as the blob");
    vc_check(mem[pos] == 16 && be(pos + 1) == n, "tag and length come first");
    if (k < size && (k < pos || k >= end)) vc_check(mem[k] == old, "nothing outside the record is written");
    MemoryStream r(static_cast<const void*>(mem), size);
    r.position_ = pos;
    byte* d = new byte[n];
    r.readBlob(d, n);
    if (i < n) vc_check(d[i] == c[i], "the blob read is the blob written");
    vc_check(r.position() == end, "reading consumes exactly the record");
    r.position_ = pos;
    size_t m = vc_size(30, "wrong");
    vc_assume(m != n);
    byte* e = new byte[m];
    vc_check(VC_THROWS(r.readBlob(e, m)), "a blob of another size is not accepted");
}
// blobs of 2 GiB and more travel in chunks
static byte *blob, *dest;
static size_t blobLen, at, base;
static MemoryStream* ws;
static byte want;
static bool inv_write(const void*& buffer, size_t& size, long& n, const char*& p) {
    size_t done = blobLen - size;
    return size <= blobLen && n == 0x80000000L && (const byte*)p == blob + done && ws->position_ == base + done && ws->address_ == (char*)mem &&
           ws->size_ == ::size && ws->writeCount_ == (long)(9 + done) && (at >= done || mem[base + at] == want);
}
static bool inv_read(void*& buffer, size_t& size, long& n, char*& p) {
    size_t done = blobLen - size;
    return size <= blobLen && n == 0x80000000L && (byte*)p == dest + done && ws->position_ == base + done && ws->address_ == (char*)mem &&
           ws->size_ == ::size && (at >= done || dest[at] == want);
}
VC_HARNESS(of_large_blob) {
    vc_option("intlift", 1);
    vc_loop("eckit::Stream::writeLargeBlob", 0, (void*)inv_write);
    blobLen = vc_size(24, "length");
    at = vc_size(24, "i");
    blob = vc_bytes(blobLen, "blob");
    setup(0);
    vc_assume(pos + blobLen + 9 <= size && at < blobLen);
    base = pos + 9;
    want = blob[at];
    MemoryStream w(static_cast<void*>(mem), size);
    ws = &w;
    w.position_ = pos;
    w.writeLargeBlob(blob, blobLen);
    size_t end = w.position();
    vc_check(end == pos + 9 + blobLen, "the record is as long as the blob");
    vc_check(mem[base + at] == want, "the blob is in the stream");
}
VC_HARNESS(read_large_blob) {
    vc_option("intlift", 1);
    vc_loop("eckit::Stream::readLargeBlob", 0, (void*)inv_read);
    blobLen = vc_size(24, "length");
    at = vc_size(24, "i");
    setup(0);
    vc_assume(pos + blobLen + 9 <= size && at < blobLen);
    base = pos + 9;
    vc_assume(mem[pos] == 21 && ((uint64_t(be(pos + 1)) << 32) | be(pos + 5)) == blobLen);
    want = mem[base + at];
    dest = new byte[blobLen];
    MemoryStream r(static_cast<const void*>(mem), size);
    ws = &r;
    r.position_ = pos;
    r.readLargeBlob(dest, blobLen);
    vc_check(r.position() == pos + 9 + blobLen, "reading consumes exactly the record");
    vc_check(dest[at] == want, "the blob read is the blob in the stream");
}
// ------------------------------------------------------------------ mistakes are noticed
static void contract_badTag(Stream*, int need, int got) { throw BadTag(""); }
template <class T> static void wrong(byte tag) {
    vc_replace("eckit::Stream::badTag", (void*)contract_badTag);
    setup(16);
    vc_assume(mem[pos] != 2 && mem[pos] != 17);   // an end of object is skipped, an exception is rethrown
    MemoryStream r(static_cast<const void*>(mem), size);
    r.position_ = pos;
    T y = T();
    byte t = mem[pos];
    try {
        r >> y;
        vc_check(t == tag, "a record of another type is not accepted");
    }
    catch (BadTag&) {
        vc_check(t != tag, "a record of the type asked for is accepted");
    }
    catch (ReadError&) {   // of a string that does not end, while its text is put in the message
        vc_check(!vc_symbolic() && t != tag, "a record of the type asked for is accepted");
    }
}
VC_HARNESS(wrong_char) { wrong<char>(3); }
VC_HARNESS(wrong_uchar) { wrong<byte>(4); }
VC_HARNESS(wrong_int) { wrong<int>(5); }
VC_HARNESS(wrong_uint) { wrong<unsigned>(6); }
VC_HARNESS(wrong_short) { wrong<short>(7); }
VC_HARNESS(wrong_ushort) { wrong<unsigned short>(8); }
VC_HARNESS(wrong_long) { wrong<long>(9); }
VC_HARNESS(wrong_ulong) { wrong<unsigned long>(10); }
VC_HARNESS(wrong_longlong) { wrong<long long>(11); }
VC_HARNESS(wrong_ulonglong) { wrong<unsigned long long>(12); }
VC_HARNESS(wrong_double) { wrong<double>(14); }
// a stream that does not take all the bytes
VC_HARNESS(no_room) {
    setup(0);
    vc_assume(size - pos < 5);
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    vc_check(VC_THROWS(w << (int)vc_i32("x")), "a record that does not fit is reported");
    if (k < pos) vc_check(mem[k] == old, "nothing before the position is written");
}
VC_HARNESS(framing) {
    setup(32);
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    int x = vc_i32("x"), y = 0, z = vc_i32("z");
    w.startObject();
    w << x;
    w.endObject();
    w << z;
    size_t end = w.position();
    MemoryStream r(static_cast<const void*>(mem), end);
    r.position_ = pos;
    vc_check(r.next(), "an object is announced");
    vc_check(!r.endObjectFound(), "its end is not announced before its content");
    r >> y;
    vc_check(y == x, "its content is delivered");
    if (vc_bool("peek")) vc_check(r.endObjectFound(), "its end is announced");
    if (vc_bool("skip")) r.skipEndObject();
    r >> y;
    vc_check(y == z, "what follows the object is delivered");
    vc_check(r.position() == end, "everything is consumed");
    vc_check(!r.next(), "the end of the stream is recognised");
    int n = 0;
    vc_check(!r.next(n), "the end of the stream is recognised");
}
struct Boom : std::exception {
    const char* what() const noexcept override { return "boom"; }
};
VC_HARNESS(remote_exception) {
    setup(32);
    MemoryStream w(static_cast<void*>(mem), size);
    w.position_ = pos;
    Boom e;
    w << static_cast<const std::exception&>(e);
    MemoryStream r(static_cast<const void*>(mem), size);
    r.position_ = pos;
    int y = 0;
    try {
        r >> y;
        vc_check(false, "an exception in the stream is rethrown");
    }
    catch (RemoteException&) {
        vc_check(r.position() == w.position(), "reading consumes exactly the record");
    }
}
// ------------------------------------------------------------------ growing streams
static size_t contract_round(size_t x, size_t n) {
    vc_check(n > 0 && n < (1ull << 50) && x < (1ull << 50), "round is called within its precondition");
    size_t r = vc_ghost_u64();
    vc_assume(r >= x && r - x < n);
    return r;
}
VC_HARNESS(resizable) {
    vc_replace("eckit::round", (void*)contract_round);
    size_t n = vc_size(24, "size"), p = vc_size(24, "pos"), m = vc_size(24, "length"), i = vc_size(48, "i");
    vc_assume(p <= n);
    Buffer b(n);
    byte* c = vc_bytes(n, "content");
    if (n) memcpy(b.buffer_, c, n);
    byte* d = vc_bytes(m, "data");
    ResizableMemoryStream s(b);
    s.position_ = p;
    byte o = i < n ? c[i] : 0;
    vc_check(s.write(d, m) == (long)m, "everything is written");
    vc_check(s.position() == p + m && b.size() >= p + m, "the position is after what was written");
    vc_check(b.size() >= n, "the buffer never shrinks");
    if (i >= p && i < p + m) vc_check(byte(b.buffer_[i]) == d[i - p], "the bytes written are there");
    else if (i < n) vc_check(byte(b.buffer_[i]) == o, "the other bytes are kept");
    s.position_ = p;
    byte* e = new byte[m];
    vc_check(s.read(e, m) == (long)m && s.position() == p + m, "they can be read");
    if (i < m) vc_check(e[i] == d[i], "they read back");
    s.rewind();
    vc_check(s.position() == 0, "rewound");
}
VC_HARNESS(memory_read) {
    size_t n = vc_size(24, "size"), p = vc_size(24, "pos"), m = vc_size(24, "length"), i = vc_size(48, "i");
    vc_assume(p <= n);
    byte* c = vc_bytes(n, "content");
    byte* e = new byte[m];
    MemoryStream s(static_cast<const void*>(c), n);
    s.position_ = p;
    size_t fit = m < n - p ? m : n - p;
    vc_check(s.read(e, m) == (long)fit && s.position() == p + fit, "reads what is asked for or what is left");
    if (i < fit) vc_check(e[i] == c[p + i], "reads the bytes at the position");
}
