// C06: Buffer and MemoryHandle
//@ tus: io/MemoryHandle.cc io/Buffer.cc io/Length.cc io/Offset.cc io/DataHandle.cc exception/Exceptions.cc thread/Mutex.cc maths/Functions.cc
#include "vc.h"
#include <cstring>
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/maths/Functions.h"
#include "eckit/exception/Exceptions.h"
using eckit::Buffer;
using eckit::MemoryHandle;
typedef unsigned char byte;

// ------------------------------------------------------------------ Buffer
static void fill(Buffer& b) {   // arbitrary content
    if (b.size_) {
        byte* c = vc_bytes(b.size_, "content");
        memcpy(b.buffer_, c, b.size_);
    }
}
static void wf(const Buffer& b) {
    vc_check((b.buffer_ == nullptr) == (b.size_ == 0), "storage exists iff the size is not zero");
    if (b.size_) vc_check(vc_obj_size(b.buffer_) >= b.size_, "the storage has the size announced");
}
VC_HARNESS(buffer_resize) {
    size_t n = vc_size(12, "size"), m = vc_size(16, "newsize"), k = vc_size(20, "k");
    bool preserve = vc_bool("preserve");
    Buffer b(n);
    fill(b);
    byte want = k < n && k < m ? byte(b.buffer_[k]) : 0;
    b.resize(m, preserve);
    vc_check(b.size() == m, "resized to what was asked");
    wf(b);
    if (preserve && k < n && k < m) { vc_cover("kept"); vc_check(byte(b.buffer_[k]) == want, "preserved data is kept"); }
}
VC_HARNESS(buffer_copy) {
    size_t n = vc_size(12, "size"), m = vc_size(16, "length"), p = vc_u64("pos"), k = vc_size(20, "k");
    vc_assume(p < (1ull << 60));
    byte* d = vc_bytes(m, "data");
    Buffer b(n);
    fill(b);
    byte old = k < n ? byte(b.buffer_[k]) : 0;
    try {
        b.copy(d, m, p);
    }
    catch (eckit::AssertionFailed&) {
        vc_cover("refused");
        vc_check(p + m > n, "a copy that fits is not refused");
        if (k < n) vc_check(byte(b.buffer_[k]) == old, "a refused copy changes nothing");
        return;
    }
    vc_check(p + m <= n, "a copy past the end is refused");
    if (k < n) vc_check(byte(b.buffer_[k]) == (k >= p && k - p < m ? d[k - p] : old), "exactly the range addressed is overwritten");
    vc_check(b.size() == n, "copying does not change the size");
    wf(b);
}
VC_HARNESS(buffer_from_data) {
    size_t m = vc_size(16, "length"), k = vc_size(20, "k");
    byte* d = vc_bytes(m, "data");
    Buffer b(d, m);
    vc_check(b.size() == m, "a buffer made from data has its size");
    if (k < m) vc_check(byte(static_cast<const char*>(b)[k]) == d[k], "a buffer made from data holds it");
    wf(b);
}
VC_HARNESS(buffer_move) {
    size_t n = vc_size(12, "size"), m = vc_size(12, "size2"), k = vc_size(20, "k");
    Buffer a(n), c(m);
    fill(a);
    byte want = k < n ? byte(a.buffer_[k]) : 0;
    Buffer b(std::move(a));
    vc_check(b.size() == n && a.size() == 0, "moving takes the content away");
    if (k < n) vc_check(byte(b.buffer_[k]) == want, "moving keeps the content");
    wf(a); wf(b);
    c = std::move(b);
    vc_check(c.size() == n && b.size() == 0, "move assignment takes the content away");
    if (k < n) vc_check(byte(c.buffer_[k]) == want, "move assignment keeps the content");
    wf(b); wf(c);
}
VC_HARNESS(buffer_zero) {
    size_t n = vc_size(12, "size"), k = vc_size(20, "k");
    Buffer b(n);
    fill(b);
    b.zero();
    vc_check(b.size() == n, "zeroing keeps the size");
    if (k < n) vc_check(b.buffer_[k] == 0, "all bytes are zeroed");
}
// ------------------------------------------------------------------ MemoryHandle
// contract of eckit::round, proved in harness round
static size_t contract_round(size_t x, size_t n) {
    vc_check(n > 0 && n < (1ull << 50) && x < (1ull << 50), "round is called within its precondition");
    size_t r = vc_ghost_u64();
    vc_assume(r >= x && r - x < n);
    return r;
}
VC_HARNESS(round) {
    vc_option("intlift", 1);
    size_t x = vc_u64("x"), n = vc_u64("n");
    vc_assume(n > 0 && n < (1ull << 50) && x < (1ull << 50));
    size_t r = eckit::round(x, n);
    vc_check(r >= x && r - x < n, "the least multiple not below x");
    vc_check(r % n == 0, "a multiple");
}
// class invariant: position <= size <= capacity = storage; a handle that does not own its storage does not grow
static void arbitrary(MemoryHandle& h, bool owned) {
    size_t cap = vc_size(24, "capacity");
    byte* c = vc_bytes(cap, "content");
    if (owned) delete[] h.address_;
    h.address_ = new char[cap];
    memcpy(h.address_, c, cap);
    h.capacity_ = cap;
    h.size_ = vc_size(24, "size");
    h.position_ = (long long)vc_size(24, "position");
    vc_assume(size_t(h.position_) <= h.size_ && h.size_ <= cap);
    h.owned_ = owned;
    h.grow_ = owned && vc_bool("grow");
    h.readOnly_ = !owned && vc_bool("readonly");
    h.opened_ = vc_bool("opened");
    h.read_ = vc_bool("reading");
}
static void wf(const MemoryHandle& h) {
    vc_check(size_t(h.position_) <= h.size_ && h.size_ <= h.capacity_ && vc_obj_size(h.address_) >= h.capacity_, "position <= size <= capacity = storage");
}
static void write_at(bool owned) {
    vc_replace("eckit::round", (void*)contract_round);
    MemoryHandle h(1, true);
    char* keep = h.address_;
    arbitrary(h, true);
    if (!owned) h.grow_ = false;
    (void)keep;
    long n = (long)vc_size(24, "length");
    size_t k = vc_size(40, "k");
    byte* d = vc_bytes(n, "data");
    size_t pos = h.position_, size = h.size_, cap = h.capacity_;
    bool grow = h.grow_, open = h.opened_ && !h.read_;
    byte old = k < size ? byte(h.address_[k]) : 0;
    long w = 0;
    try {
        w = h.write(d, n);
    }
    catch (eckit::AssertionFailed&) {
        vc_check(!open, "a handle open for writing can be written");
        vc_check(h.size_ == size && size_t(h.position_) == pos, "a refused write changes nothing");
        return;
    }
    vc_check(open, "a handle not open for writing cannot be written");
    size_t left = size - pos, fit = size_t(n) <= left ? size_t(n) : (grow ? size_t(n) : left);
    vc_check(w == long(fit), "a growing handle takes everything, a fixed one what fits");
    vc_check(size_t((long long)h.position()) == pos + fit, "the position advances by what was written");
    vc_check((long long)h.size() == (long long)(pos + fit > size ? pos + fit : size), "the size covers what was written and nothing more");
    if (k >= pos && k < pos + fit) vc_check(byte(static_cast<const char*>(h.data())[k]) == d[k - pos], "the bytes written are there");
    else if (k < size) vc_check(byte(static_cast<const char*>(h.data())[k]) == old, "the other bytes are kept");
    wf(h);
    if (h.capacity_ > cap) vc_cover("reallocated");
}
VC_HARNESS(write_growing) { vc_option("intlift", 1); write_at(true); }
VC_HARNESS(read) {
    MemoryHandle h(1, true);
    arbitrary(h, true);
    long n = vc_i64("length");
    vc_assume(n < 64 || vc_symbolic());
    size_t k = vc_size(40, "k"), pos = h.position_, size = h.size_;
    vc_assume(n < (1L << 40));
    bool open = h.opened_ && h.read_ && n >= 0;
    char* out = new char[n < 0 ? 0 : n];
    byte want = k < size ? byte(h.address_[k]) : 0;
    long r = 0;
    try {
        r = h.read(out, n);
    }
    catch (eckit::AssertionFailed&) {
        vc_check(!open, "a handle open for reading can be read");
        vc_check(size_t(h.position_) == pos, "a refused read changes nothing");
        return;
    }
    vc_check(open, "a handle not open for reading cannot be read");
    size_t left = size - pos, fit = size_t(n) <= left ? size_t(n) : left;
    vc_check(r == long(fit), "reads what is asked for or what is left");
    if (k >= pos && k - pos < fit) vc_check(byte(out[k - pos]) == want, "reads the bytes at the position");
    vc_check(size_t((long long)h.position()) == pos + fit, "the position advances by what was read");
    if (k < size) vc_check(byte(h.address_[k]) == want && h.size_ == size, "reading changes no content");
    wf(h);
}
VC_HARNESS(seek) {
    MemoryHandle h(1, true);
    arbitrary(h, true);
    long long off = vc_i64("offset");
    size_t pos = h.position_, size = h.size_;
    bool ok = h.opened_ && off >= 0 && off <= (long long)size;
    bool opened = h.opened_;
    try {
        vc_check((long long)h.seek(off) == off, "seek answers the new position");
    }
    catch (eckit::AssertionFailed&) {
        vc_check(!ok, "seeking within the content of an open handle works");
        vc_check(size_t((long long)h.position_) == pos, "a refused seek does not move");
        return;
    }
    vc_check(ok, "seeking outside the content is refused");
    vc_check((long long)h.position() == off, "seek moves there");
    wf(h);
    h.rewind();
    vc_check((long long)h.position() == 0, "rewind goes to the start");
    (void)opened;
}
VC_HARNESS(skip) {
    MemoryHandle h(1, true);
    arbitrary(h, true);
    long long n = vc_i64("length");
    vc_assume(n > -(1LL << 60) && n < (1LL << 60));
    long long pos = h.position_, size = h.size_;
    bool ok = h.opened_ && h.read_ && pos + n >= 0 && pos + n <= size;
    try {
        h.skip(n);
    }
    catch (eckit::AssertionFailed&) {
        vc_check(!ok, "skipping within the content works");
        vc_check((long long)h.position_ == pos, "a refused skip does not move");
        return;
    }
    vc_check(ok, "skipping outside the content is refused");
    vc_check((long long)h.position() == pos + n, "skip moves by that much");
    wf(h);
}
VC_HARNESS(open) {
    MemoryHandle h(1, true);
    arbitrary(h, true);
    h.readOnly_ = vc_bool("ro");
    long long size = h.size_;
    vc_check((long long)h.openForRead() == size, "openForRead announces the size");
    vc_check((long long)h.position() == 0 && (long long)h.size() == size, "reading starts at the beginning");
    vc_check((long long)h.estimate() == size, "estimate is the size");
    wf(h);
    h.close();
    vc_check(VC_THROWS(h.position()), "a closed handle has no position");
    try {
        h.openForWrite(0);
        vc_check(!h.readOnly_, "a read-only handle is not opened for writing");
        vc_check((long long)h.position() == 0, "writing starts at the beginning");
    }
    catch (eckit::AssertionFailed&) {
        vc_check(h.readOnly_, "a writable handle is opened for writing");
    }
    wf(h);
}
VC_HARNESS(clone) {
    MemoryHandle h(1, true);
    arbitrary(h, true);
    size_t k = vc_size(40, "k"), size = h.size_;
    byte want = k < size ? byte(h.address_[k]) : 0;
    MemoryHandle* c = static_cast<MemoryHandle*>(h.clone());
    vc_check(c->size_ == size && c->address_ != h.address_, "a clone of an owning handle has its own storage");
    if (k < size) vc_check(byte(c->address_[k]) == want, "a clone has the same content");
    wf(*c);
    vc_check(c->grow_ == h.grow_, "a clone grows when the original does");
    if (c->capacity_ && k < c->capacity_) { c->address_[k] = 0; if (k < size) vc_check(byte(h.address_[k]) == want, "writing to a clone leaves the original alone"); }
    delete c;
}
VC_HARNESS(over_memory) {
    size_t n = vc_size(16, "length"), k = vc_size(20, "k");
    byte* d = vc_bytes(n, "data");
    MemoryHandle r(static_cast<const void*>(d), n), w(static_cast<void*>(d), n);
    vc_check((long long)r.size() == (long long)n && (long long)w.size() == (long long)n, "a handle over memory has its size");
    vc_check(VC_THROWS(r.openForWrite(0)), "const memory is not opened for writing");
    w.openForWrite(0);
    byte x[1] = {vc_u8("x")};
    byte old = k < n ? d[k] : 0;
    long got = w.write(x, 1);
    vc_check(got == (n >= 1 ? 1 : 0), "a fixed handle takes what fits");
    if (k < n) vc_check(d[k] == (k == 0 ? x[0] : old), "writes go to the memory");
    vc_check(!w.grow_ && !w.owned_ && !r.owned_, "memory given is neither grown nor freed");
}
