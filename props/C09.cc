// C09: handles wrapped around another handle: BufferedHandle, PeekHandle, SeekableHandle
//@ tus: io/BufferedHandle.cc io/PeekHandle.cc io/SeekableHandle.cc io/HandleHolder.cc io/Buffer.cc log/Bytes.cc io/Length.cc io/Offset.cc io/DataHandle.cc serialisation/Streamable.cc exception/Exceptions.cc thread/Mutex.cc
//@ assume: std::deque<unsigned char> and std::copy over its iterators behave as the C++ standard says (modelled as an unbounded array)
//@ assume: the wrapped handle delivers between one byte and what was asked until its end, then 0, and takes what is written in full
#include "vc.h"
#include <cstring>
#include <deque>
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/SeekableHandle.h"
#include "eckit/exception/Exceptions.h"
using namespace eckit;
typedef unsigned char byte;
typedef unsigned long long u64;

static size_t quota;   // native runs: at most this many bytes per read
static size_t least(size_t a, size_t b) { return vc_ite(a < b, a, b); }
// the wrapped handle when reading: content data[0..len)
struct Tape : DataHandle {
    byte* data;
    size_t len, pos;
    void print(std::ostream&) const override {}
    Length openForRead() override { pos = 0; return len; }
    void openForWrite(const Length&) override {}
    void close() override {}
    void rewind() override { pos = 0; }
    Length estimate() override { return len; }
    Offset position() override { return pos; }
    bool canSeek() const override { return true; }
    Offset seek(const Offset& o) override {
        vc_assume((long long)o >= 0 && (long long)o <= (long long)len);   // within the content
        pos = (long long)o;
        return o;
    }
    long read(void* p, long n) override {
        if (n < 0) return -1;
        size_t most = least(n, len - pos), m = most;
        if (vc_symbolic()) {
            m = vc_ghost_u64();
            vc_assume((m <= most) & ((m > 0) | (most == 0)));
        }
        else m = least(most, quota);
        memcpy(p, data + pos, m);
        pos += m;
        return m;
    }
};
static void fill(Tape& t, size_t small) {
    t.len = vc_size(small, "length");
    t.data = vc_bytes(t.len, "content");
    t.pos = vc_size(small, "position");
    vc_assume(t.pos <= t.len);
    quota = vc_range(1, 8, "quota");
}
// ------------------------------------------------------------------ BufferedHandle, reading
static BufferedHandle* it;
static Tape* tape;
static size_t S, P0, L0, J, K;   // buffer size; position and length of the request; absolute position of output byte K
static byte* out0;
static byte outK;
static bool wfRead() {
    size_t u = it->used_, base = tape->pos - u;
    return (it->pos_ <= u) & (u <= S) & (it->size_ == S) & (u <= tape->pos) & (tape->pos <= tape->len) & it->read_ & vc_imp(it->eof_, (tape->pos == tape->len) & (it->pos_ == u));
}
static void state(BufferedHandle& b, Tape& t) {   // an arbitrary reading state
    b.read_ = true;
    b.used_ = vc_size(12, "used");
    b.pos_ = vc_size(12, "pos");
    b.eof_ = vc_bool("eof");
    vc_assume(b.pos_ <= b.used_ && b.used_ <= S && b.used_ <= t.pos);
    vc_assume(!b.eof_ || (t.pos == t.len && b.pos_ == b.used_));
    memcpy((char*)b.buffer_, t.data + (t.pos - b.used_), b.used_);
    b.position_ = P0 = t.pos - (b.used_ - b.pos_);
}
static bool inv_bread(BufferedHandle*& self, void*& buffer, long& length, long& len, long& size, char*& buf) {
    size_t u = it->used_;
    bool inB = (J >= tape->pos - u) & (J < tape->pos);
    return (self == it) & ((byte*)buffer == out0) & ((byte*)buf == out0) & (length == (long)L0) & (len >= 0) & (len <= (long)L0) & (size_t(size) == L0 - size_t(len)) & wfRead() &
           (P0 + len == tape->pos - (u - it->pos_)) & (it->position_ == Offset(P0)) &
           vc_imp(inB, vc_at(it->buffer_.buffer_, J - (tape->pos - u), inB) == vc_at(tape->data, J, inB)) &
           (vc_at(out0, K, K < L0) == vc_ite((long)K < len, vc_at(tape->data, J, (long)K < len), outK));
}
VC_HARNESS(buffered_read) {
    vc_option("intlift", 1);
    vc_loop("eckit::BufferedHandle::read", 0, (void*)inv_bread);
    Tape t;
    tape = &t;
    fill(t, 24);
    S = vc_size(12, "size");
    vc_assume(S > 0);
    BufferedHandle b(t, S);
    it = &b;
    state(b, t);
    L0 = vc_size(20, "asked");
    K = vc_size(20, "k");
    vc_assume(K < L0 || L0 == 0);
    J = P0 + K;
    out0 = vc_bytes(L0, "out");
    outK = L0 ? out0[K] : 0;
    size_t want = t.len - P0 < L0 ? t.len - P0 : L0;
    long n = b.read(out0, L0);
    vc_check(n == (long)want, "reads what was asked for or what is left");
    vc_check(b.position() == Offset(P0 + want), "the position moves by what was read");
    if (K < want) vc_check(out0[K] == t.data[J], "the bytes read are those of the wrapped handle at that position");
    else if (L0) vc_check(out0[K] == outK, "nothing beyond what was read is touched");
    vc_check(wfRead() && P0 + want == t.pos - (b.used_ - b.pos_), "the buffer stays in step with the wrapped handle");
}
static void afterMove(BufferedHandle& b, Tape& t, size_t p) {
    vc_check(b.position() == Offset(p), "the new position is the one asked for");
    vc_check(wfRead() && p == t.pos - (b.used_ - b.pos_), "the buffer stays in step with the wrapped handle");
    size_t j = vc_size(30, "j");
    if (j >= t.pos - b.used_ && j < t.pos) vc_check((byte)b.buffer_.buffer_[j - (t.pos - b.used_)] == t.data[j], "what is buffered is what the wrapped handle holds there");
}
VC_HARNESS(buffered_move) {
    vc_option("intlift", 1);
    Tape t;
    tape = &t;
    fill(t, 24);
    S = vc_size(12, "size");
    vc_assume(S > 0);
    BufferedHandle b(t, S);
    it = &b;
    state(b, t);
    unsigned op = vc_split(vc_range(0, 3, "op"), 0, 3);
    size_t to = vc_size(30, "to");
    if (op == 0) {
        vc_assume(to <= t.len);
        vc_check(b.seek(to) == Offset(to), "seeking reports the position");
        afterMove(b, t, to);
    }
    else if (op == 1) {
        vc_assume(to <= t.len - P0);
        b.skip(to);
        afterMove(b, t, P0 + to);
    }
    else if (op == 2) {
        b.rewind();
        afterMove(b, t, 0);
    }
    else {
        vc_check(b.openForRead() == Length(t.len), "opening reports the length");
        afterMove(b, t, 0);
    }
}
// ------------------------------------------------------------------ BufferedHandle, writing
struct Sink : DataHandle {   // a file: byte number J last written
    size_t pos;
    byte at;
    void print(std::ostream&) const override {}
    void openForWrite(const Length&) override { pos = 0; }
    void close() override {}
    void flush() override {}
    void rewind() override { pos = 0; }
    Offset position() override { return pos; }
    Offset seek(const Offset& o) override {
        vc_assume((long long)o >= 0 && (long long)o < (1ll << 40));
        pos = (long long)o;
        return o;
    }
    long write(const void* p, long n) override {
        vc_check(n >= 0, "no negative length is written");
        bool here = (J >= pos) & (J - pos < size_t(n));
        at = vc_ite(here, vc_at(p, J - pos, here), at);
        pos += n;
        return n;
    }
};
static Sink* sink;
static size_t W0;            // where the sink was
static byte wantJ, dataJ;
static const byte* data0;
static bool wfWrite() { return (it->pos_ < S) & (it->size_ == S) & !it->read_ & (sink->pos <= (1ull << 42)); }
static byte contentJ() {   // byte J as it will be once the buffer is flushed
    bool inB = (J >= sink->pos) & (J - sink->pos < it->pos_);
    return vc_ite(inB, vc_at(it->buffer_.buffer_, J - sink->pos, inB), sink->at);
}
static void writeState(BufferedHandle& b, Sink& s) {
    b.read_ = false;
    b.pos_ = vc_size(12, "pos");
    s.pos = W0 = vc_size(12, "written");
    s.at = vc_u8("at");
    vc_assume(b.pos_ < S);
    byte* c = vc_bytes(b.pos_, "buffered");
    memcpy((char*)b.buffer_, c, b.pos_);
    b.position_ = P0 = s.pos + b.pos_;
    J = vc_size(40, "j");
    wantJ = contentJ();
}
static bool inv_bwrite(BufferedHandle*& self, const void*& buffer, long& length, long& written) {
    bool done = (J >= P0) & ((long)(J - P0) < written);
    return (self == it) & (buffer == (const void*)data0) & (written >= 0) & (written <= (long)L0) & (size_t(length) == L0 - size_t(written)) & wfWrite() & (sink->pos >= W0) &
           (sink->pos + it->pos_ == P0 + written) & (it->position_ == Offset(P0)) & (contentJ() == vc_ite(done, vc_at(data0, J - P0, done), wantJ));
}
VC_HARNESS(buffered_write) {
    vc_option("intlift", 1);
    vc_loop("eckit::BufferedHandle::write", 0, (void*)inv_bwrite);
    Sink s;
    sink = &s;
    S = vc_size(12, "size");
    vc_assume(S > 0);
    BufferedHandle b(s, S);
    it = &b;
    writeState(b, s);
    L0 = vc_size(20, "n");
    data0 = vc_bytes(L0, "data");
    long n = b.write(data0, L0);
    vc_check(n == (long)L0, "everything is taken");
    vc_check(b.position() == Offset(P0 + L0), "the position moves by what was written");
    bool mine = J >= P0 && J < P0 + L0;
    byte want = mine ? data0[J - P0] : wantJ;
    vc_check(contentJ() == want, "the bytes are written where the handle stands, the others are kept");
    vc_check(wfWrite() && s.pos + b.pos_ == P0 + L0, "the buffer stays in step with the wrapped handle");
}
VC_HARNESS(buffered_flush) {
    vc_option("intlift", 1);
    Sink s;
    sink = &s;
    S = vc_size(12, "size");
    vc_assume(S > 0);
    BufferedHandle b(s, S);
    it = &b;
    writeState(b, s);
    unsigned op = vc_split(vc_range(0, 3, "op"), 0, 3);
    size_t to = vc_size(30, "to"), end = P0;
    if (op == 0) b.flush();
    else if (op == 1) b.close();
    else if (op == 2) b.seek(to), end = to;
    else b.rewind(), end = 0;
    vc_check(s.at == wantJ, "flushing, closing and moving put everything written into the wrapped handle");
    vc_check(b.pos_ == 0 && s.pos == end && b.position() == Offset(end), "and leave both at the position asked for");
}
VC_HARNESS(buffered_modes) {
    Sink s;
    S = vc_size(12, "size");
    vc_assume(S > 0);
    BufferedHandle b(s, S);
    b.pos_ = vc_size(12, "pos");
    b.openForWrite(0);
    byte c = 0;
    vc_check(b.position() == Offset(0) && b.pos_ == 0 && !b.read_, "opening for writing starts empty");
    vc_check(VC_THROWS(b.read(&c, 1)) && VC_THROWS(b.skip(1)), "a handle open for writing cannot be read");
    b.read_ = true;
    vc_check(VC_THROWS(b.write(&c, 1)), "a handle open for reading cannot be written");
}
// ------------------------------------------------------------------ PeekHandle
typedef std::deque<byte> Deque;
typedef Deque::iterator Iter;
static byte* dq;              // ghost: the deque holds dq[dh..dt)
static size_t dh, dt;
static size_t d_size(const Deque*) { return dt - dh; }
static bool d_empty(const Deque*) { return dt == dh; }
static void d_clear(Deque*) { dh = dt; }
static void d_push(Deque*, const byte& c) { vc_assume(dt < (1ull << 40)); dq[dt++] = c; }
static void d_pop(Deque*) { vc_check(dh < dt, "no byte is taken from an empty deque"); dh++; }
static void d_end(Deque*) {}
static byte& d_at(Deque*, size_t i) { vc_check(i < dt - dh, "indices stay inside the deque"); return dq[dh + i]; }
static Iter d_begin(Deque*) { Iter i; i._M_cur = dq + dh; return i; }
static Iter d_plus(const Iter& a, long n) { Iter i; i._M_cur = a._M_cur + n; return i; }
static char* d_copyc(Iter a, Iter b, char* to) {
    long n = b._M_cur - a._M_cur;
    vc_check(a._M_cur >= dq + dh && n >= 0 && b._M_cur <= dq + dt, "iterators stay inside the deque");
    memcpy(to, a._M_cur, n);
    return to + n;
}
static byte* d_copyb(Iter a, Iter b, byte* to) { return (byte*)d_copyc(a, b, (char*)to); }
static std::back_insert_iterator<Deque> d_append(byte* a, byte* b, std::back_insert_iterator<Deque> to) {
    vc_assume(dt + (b - a) < (1ull << 40));
    memcpy(dq + dt, a, b - a);
    dt += b - a;
    return to;
}
#define DQ "std::deque<unsigned char, std::allocator<unsigned char>>::"
#define DI "std::_Deque_iterator<unsigned char, unsigned char&, unsigned char*>"
static PeekHandle* ph;
static size_t base;           // where the first byte of the deque is on the tape
static void peekState(PeekHandle& h, Tape& t) {
    ph = &h;
    tape = &t;
    fill(t, 16);
    size_t n = vc_size(12, "peeked");
    vc_assume(n <= t.pos);
    base = t.pos - n;
    if (!vc_symbolic()) {
        for (size_t i = 0; i < n; i++) h.peek_.push_back(t.data[base + i]);
        return;
    }
    dq = vc_bytes(1ull << 40, "deque");
    dh = 0;
    dt = n;
    memcpy(dq, t.data + base, n);
    vc_replace(DQ "size", (void*)d_size);
    vc_replace(DQ "empty", (void*)d_empty);
    vc_replace(DQ "clear", (void*)d_clear);
    vc_replace(DQ "push_back", (void*)d_push);
    vc_replace(DQ "pop_front", (void*)d_pop);
    vc_replace(DQ "operator[]", (void*)d_at);
    vc_replace(DQ "begin", (void*)d_begin);
    vc_replace("std::operator+(" DI " const&, long)", (void*)d_plus);
    vc_replace("std::copy<" DI ", char*>", (void*)d_copyc);
    vc_replace("std::copy<" DI ", unsigned char*>", (void*)d_copyb);
    vc_replace("std::copy<unsigned char*, std::back_insert_iterator<std::deque<unsigned char, std::allocator<unsigned char>>>>", (void*)d_append);
    vc_replace(DQ "~deque", (void*)d_end);
    vc_unmodelled("std::deque<unsigned char");
    vc_unmodelled("std::_Deque_iterator<unsigned char");
}
// the handle stays where it is: the bytes kept are those of the tape from position base on
static void inStep(PeekHandle& h, Tape& t, size_t at) {
    vc_check(h.position() == Offset(at) && t.pos - h.peeked() == at, "the position is that of the next byte to be read");
    size_t j = vc_size(20, "j");
    if (j < h.peeked()) vc_check(h.peek_[j] == t.data[at + j], "the bytes kept are those at the position");
}
static bool dqOk(size_t j) {   // deque byte j is the tape's
    bool in = j < dt - dh;
    return vc_imp(in, vc_at(dq, dh + j, in) == vc_at(tape->data, base + j, in));
}
static bool inv_peek1(PeekHandle*& self, size_t& n) {
    return (self == ph) & (n == L0) & (dh == 0) & (dt <= tape->pos) & (tape->pos <= tape->len) & (base + dt == tape->pos) & dqOk(n) & dqOk(K);
}
VC_HARNESS(peek_byte) {
    vc_option("intlift", 1);
    vc_loop("eckit::PeekHandle::peek(unsigned long)", 0, (void*)inv_peek1);
    Tape t;
    PeekHandle h(t);
    peekState(h, t);
    size_t n = L0 = vc_size(20, "n");
    K = vc_size(20, "k");
    unsigned c;
    try {
        c = h.peek(n);
    }
    catch (ReadError&) {
        vc_check(base + n >= t.len, "peeking fails only beyond the end");
        return;
    }
    vc_cover("peeked");
    vc_check(base + n < t.len && c == t.data[base + n], "peeks at the byte that many ahead");
    if (K < h.peeked()) vc_check(h.peek_[K] == t.data[base + K], "peeking takes nothing away");
    vc_check(h.position() == Offset(base), "peeking does not move");
}
static bool inv_peek(PeekHandle*& self, void*& buffer, size_t& size, size_t& pos, size_t& last, byte*& buf) {
    return (self == ph) & ((byte*)buffer == out0) & (buf == out0) & (size == L0) & (pos == P0) & (last == P0 + L0) & (dh == 0) & (dt >= J) & (dt <= tape->pos) &
           (tape->pos <= tape->len) & (base + dt == tape->pos) & dqOk(P0 + K) & dqOk(K);
}
VC_HARNESS(peek_bytes) {
    vc_option("intlift", 1);
    vc_loop("eckit::PeekHandle::peek(void*, unsigned long, unsigned long)", 0, (void*)inv_peek);
    Tape t;
    PeekHandle h(t);
    peekState(h, t);
    L0 = vc_size(16, "asked");
    P0 = vc_size(16, "from");
    K = vc_size(30, "k");
    J = t.pos - base;
    out0 = vc_bytes(L0, "out");
    size_t there = t.len - base;
    long n;
    try {
        n = h.peek(out0, L0, P0);
    }
    catch (AssertionFailed&) {
        vc_check(P0 > there || L0 == 0, "peeking is refused only from beyond the end");
        return;
    }
    vc_cover("peeked");
    vc_check(n == (long)(P0 + L0 <= there ? L0 : there - P0), "peeks at what was asked for or what is there");
    if (K < (size_t)n) vc_check(out0[K] == t.data[base + P0 + K], "the bytes peeked are those that far ahead");
    if (K < h.peeked()) vc_check(h.peek_[K] == t.data[base + K], "peeking takes nothing away");
    vc_check(h.peeked() >= J && h.position() == Offset(base), "peeking does not move");
}
static size_t S0;
static bool inv_pops(PeekHandle*& self, size_t& s) { return (self == ph) & (s <= S0) & (dh == S0 - s); }
VC_HARNESS(peek_read) {
    vc_option("intlift", 1);
    vc_loop("eckit::PeekHandle::read", 0, (void*)inv_pops);
    Tape t;
    PeekHandle h(t);
    peekState(h, t);
    L0 = vc_size(20, "asked");
    K = vc_size(20, "k");
    out0 = vc_bytes(L0, "out");
    size_t kept = t.pos - base, before = t.pos;
    S0 = least(kept, L0);
    long n = h.read(out0, L0);
    size_t r = n;
    vc_check(n >= 0 && r <= L0 && r <= t.len - base && (r > 0 || L0 == 0 || base == t.len), "reads between one byte and what was asked, nothing only at the end");
    vc_check(r >= S0 && t.pos - before == r - S0, "the bytes kept come first");
    if (K < r) vc_check(out0[K] == t.data[base + K], "the bytes read are those at the position");
    inStep(h, t, base + r);
}
static bool inv_skip(PeekHandle*& self, long& i) { return (self == ph) & (i >= 0) & (i <= (long)L0) & (dh == (size_t)i); }
VC_HARNESS(peek_skip) {
    vc_option("intlift", 1);
    vc_loop("eckit::PeekHandle::skip", 0, (void*)inv_skip);
    Tape t;
    PeekHandle h(t);
    peekState(h, t);
    L0 = vc_size(20, "n");
    size_t kept = t.pos - base;
    try {
        h.skip(L0);
    }
    catch (NotImplemented&) {
        vc_check(L0 > kept, "skipping what was peeked at is not refused");
        vc_check(h.peeked() == kept, "a refused skip changes nothing");
        return;
    }
    vc_check(L0 <= kept, "skipping more than was peeked at is refused");
    vc_cover("skipped");
    inStep(h, t, base + L0);
}
VC_HARNESS(peek_move) {
    Tape t;
    PeekHandle h(t);
    peekState(h, t);
    unsigned op = vc_split(vc_range(0, 3, "op"), 0, 3);
    size_t to = 0;
    if (op == 0) vc_check(h.seek(to = vc_size(30, "to")) == Offset(to), "seeking reports the position");
    else if (op == 1) h.rewind();
    else if (op == 2) h.openForRead();
    else {
        h.close();
        vc_check(h.peeked() == 0, "closing forgets what was kept");
        return;
    }
    vc_check(h.peeked() == 0, "moving forgets what was kept");
    inStep(h, t, to);
}
// ------------------------------------------------------------------ SeekableHandle, over the contract of PeekHandle
static long contract_peek(PeekHandle*, void* buffer, size_t size, size_t pos) {
    size_t there = tape->len - base;
    if (pos > there) throw AssertionFailed("beyond the end");
    size_t n = least(size, there - pos), more = least(pos + n, there);
    memcpy(buffer, tape->data + base + pos, n);
    size_t kept = vc_ghost_u64();
    vc_assume((kept >= tape->pos - base) & (kept >= more) & (kept <= there));
    tape->pos = base + kept;
    return n;
}
static size_t contract_peeked(const PeekHandle*) { return tape->pos - base; }
static void contract_skip(PeekHandle*, const Length& n) {
    vc_check((long long)n >= 0 && (long long)n <= (long long)(tape->pos - base), "skips only over what was peeked at");
    base += (long long)n;
}
VC_HARNESS(seekable) {
    vc_option("intlift", 1);
    Tape t;
    PeekHandle h(t);
    peekState(h, t);
    vc_replace("eckit::PeekHandle::peek(void*, unsigned long, unsigned long)", (void*)contract_peek);
    vc_replace("eckit::PeekHandle::peeked", (void*)contract_peeked);
    vc_replace("eckit::PeekHandle::skip", (void*)contract_skip);
    SeekableHandle s(h);
    s.seekableStart_ = base;
    size_t p = vc_size(20, "at"), kept = t.pos - base, to = vc_size(30, "to"), k = vc_size(20, "k");
    vc_assume(p >= base && p <= t.pos);
    s.position_ = p;
    unsigned op = vc_split(vc_range(0, 4, "op"), 0, 4);
    size_t expect = p;
    if (op == 0) {
        out0 = vc_bytes(to, "out");
        long n = s.read(out0, to);
        size_t want = least(to, t.len - p);
        vc_check(n == (long)want, "reads what was asked for or what is left");
        if (k < want) vc_check(out0[k] == t.data[p + k], "reads the bytes at the position");
        expect = p + want;
        vc_check(t.pos >= expect, "what was read can be gone back over");
    }
    else if (op == 1) {
        bool ok = to >= base && to <= t.pos;
        vc_check(VC_THROWS(s.seek(to)) == !ok, "seeking works within what was read since the last clear, and only there");
        expect = ok ? to : p;
    }
    else if (op == 2) {
        bool ok = to <= t.pos - p;
        vc_check(VC_THROWS(s.skip(to)) == !ok, "skipping works within what was read since the last clear, and only there");
        expect = ok ? p + to : p;
    }
    else if (op == 3) {
        size_t end = t.pos;
        s.clear();
        vc_check(s.seekableStart_ == Offset(end), "clearing forgets what was read");
        expect = end;
    }
    else {
        vc_check(VC_THROWS(s.rewind()) == (base != 0), "rewinding works only when nothing was forgotten");
        expect = base ? p : 0;
    }
    vc_check(s.position() == Offset(expect), "the position is where the next byte comes from");
}
