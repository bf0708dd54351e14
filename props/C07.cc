// C07: CircularBuffer is a FIFO byte queue
//@ tus: io/CircularBuffer.cc exception/Exceptions.cc thread/Mutex.cc maths/Functions.cc
//@ assume: the buffer is not used from several threads at once (its mutex is modelled as always free)
#include "vc.h"
#include <cstring>
#include "eckit/io/CircularBuffer.h"
#include "eckit/maths/Functions.h"
#include "eckit/exception/Exceptions.h"
using eckit::CircularBuffer;

// class invariant: pos < size <= capacity, used <= size, the storage has size bytes
static CircularBuffer* arbitrary(CircularBuffer& b) {
    delete[] b.buffer_;
    b.size_ = vc_size(12, "size");
    b.increment_ = vc_size(6, "increment");
    b.capacity_ = vc_u64("capacity");
    b.pos_ = vc_size(12, "pos");
    b.used_ = vc_size(12, "used");
    vc_assume(b.size_ > 0 && b.increment_ > 0 && b.size_ <= b.capacity_);
    vc_assume(b.pos_ < b.size_ && b.used_ <= b.size_);
    unsigned char* c = vc_bytes(b.size_, "content");
    b.buffer_ = new char[b.size_];
    memcpy(b.buffer_, c, b.size_);
    return &b;
}
// k-th byte waiting in the queue
static unsigned char nth(const CircularBuffer& b, size_t k) {
    size_t i = b.pos_ + k;
    if (i >= b.size_) i -= b.size_;
    return (unsigned char)b.buffer_[i];
}
static void invariant(const CircularBuffer& b) {
    vc_check(b.size_ > 0 && b.pos_ < b.size_ && b.used_ <= b.size_ && b.size_ <= b.capacity_, "class invariant is kept");
    vc_check(vc_obj_size(b.buffer_) >= b.size_, "the storage is as large as the size says");
}

// contract of eckit::round, proved in harness round
static size_t contract_round(size_t x, size_t n) {
    vc_check(n > 0 && n < (1ull << 50) && x < (1ull << 50), "round is called within its precondition");
    size_t r = vc_ghost_u64();
    vc_assume(r >= x && r - x < n);
    return r;
}
VC_HARNESS(round) {
    vc_option("intlift", 1);
    size_t x = vc_u64("x"), n = vc_u64("n");
    vc_assume(n > 0 && n < (1ull << 50) && x < (1ull << 50));
    size_t r = eckit::round(x, n);
    vc_check(r >= x && r - x < n, "the least multiple not below x");
    vc_check(r % n == 0, "a multiple");
}
VC_HARNESS(write) {
    vc_option("intlift", 1);
    vc_replace("eckit::round", (void*)contract_round);
    CircularBuffer b(1, 1);
    arbitrary(b);
    size_t n = vc_size(20, "length"), k = vc_size(30, "k");
    unsigned char* d = vc_bytes(n, "data");
    size_t used = b.used_, size = b.size_;
    unsigned char want = 0;
    if (k < used) want = nth(b, k);
    else if (k < used + n) want = d[k - used];
    bool grow = n > b.size_ - b.used_;
    size_t w = 0;
    try {
        w = b.write(d, n);
    }
    catch (eckit::SeriousBug&) {
        vc_cover("rejected");
        vc_check(grow, "a write that fits is never refused");
        vc_check(b.used_ == used && b.size_ == size, "a refused write leaves the queue as it was");
        if (k < used) vc_check(nth(b, k) == want, "a refused write leaves the content as it was");
        return;
    }
    if (grow) vc_cover("grown"); else vc_cover("fits");
    vc_check(w == n, "everything is written");
    vc_check(b.length() == used + n, "the length grows by what was written");
    if (k < used + n) vc_check(nth(b, k) == want, "the queue holds what it held followed by the data written");
    invariant(b);
}
VC_HARNESS(read) {
    vc_option("intlift", 1);
    CircularBuffer b(1, 1);
    arbitrary(b);
    size_t n = vc_size(20, "length"), k = vc_size(30, "k"), used = b.used_;
    char* out = new char[n];
    size_t len = n < used ? n : used;
    unsigned char want = k < used ? nth(b, k) : 0;
    size_t r = b.read(out, n);
    vc_check(r == len, "reads what is asked for or what is there");
    vc_check(b.length() == used - len, "what was read is gone");
    if (k < len) vc_check((unsigned char)out[k] == want, "bytes come out in the order they went in");
    else if (k < used) vc_check(nth(b, k - len) == want, "the rest stays in order");
    invariant(b);
}
VC_HARNESS(clear) {
    CircularBuffer b(1, 1);
    arbitrary(b);
    size_t size = b.size_;
    vc_check(b.size() == size && b.capacity() == b.capacity_ && b.length() == b.used_, "accessors");
    b.clear();
    vc_check(b.length() == 0, "cleared");
    invariant(b);
}
VC_HARNESS(create) {
    size_t size = vc_size(20, "size"), cap = vc_u64("capacity");
    vc_assume(size > 0 && cap >= size);
    CircularBuffer b(size, cap);
    vc_check(b.length() == 0, "a new queue is empty");
    invariant(b);
}
