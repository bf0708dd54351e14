// C10: parts of a handle, concatenations of handles, copying and comparing whole handles
//@ tus: io/PartHandle.cc io/MultiHandle.cc io/HandleHolder.cc io/Buffer.cc io/Length.cc io/Offset.cc io/DataHandle.cc io/TransferWatcher.cc log/Bytes.cc serialisation/Streamable.cc exception/Exceptions.cc thread/Mutex.cc
//@ assume: the wrapped handles deliver what is asked for or what is left, whichever is less, and take what is written in full
//@ harness multi_read: bounded
//@ harness multi_write: bounded
//@ harness multi_seek: bounded
#include "vc.h"
#include <cstring>
#include "eckit/io/PartHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/exception/Exceptions.h"
using namespace eckit;
typedef unsigned char byte;
typedef long long ll;

static size_t least(size_t a, size_t b) { return vc_ite(a < b, a, b); }
struct Tape : DataHandle {
    byte* data;
    size_t len, pos;
    int opened = 0;
    void print(std::ostream&) const override {}
    Length openForRead() override { pos = 0; opened++; return len; }
    void close() override { opened--; }
    void rewind() override { pos = 0; }
    Length estimate() override { return len; }
    Length size() override { return len; }
    Offset position() override { return pos; }
    bool canSeek() const override { return true; }
    Offset seek(const Offset& o) override { pos = (ll)o; return o; }
    void restartReadFrom(const Offset& o) override { pos = (ll)o; }
    long read(void* p, long n) override {
        if (n < 0) return -1;
        size_t m = vc_ite(pos < len, least(n, len - pos), 0);
        memcpy(p, data + vc_ite(pos < len, pos, 0), m);
        pos += m;
        return m;
    }
};
// ------------------------------------------------------------------ PartHandle
// ghost: pre[i] is the number of bytes in the parts before i
static PartHandle* it;
static Tape* tape;
static size_t N;
static ll *offs, *lens, *pre;
static const ll LIM = 1ll << 50;
static ll lenAt(size_t i) { return vc_peek(lens, i, 8, i < N); }
static ll offAt(size_t i) { return vc_peek(offs, i, 8, i < N); }
static ll preAt(size_t i) { return vc_peek(pre, i, 8, i <= N); }
static ll plus(ll a, ll b) { return (ll)((size_t)a + (size_t)b); }   // (no overflow where the values are in range)
static void known(size_t i) {   // the definition of pre and the range of the parts, at i
    vc_assume(vc_imp(i < N, (lenAt(i) >= 0) & (lenAt(i) < LIM) & (offAt(i) >= 0) & (offAt(i) < LIM) & (preAt(i + 1) == plus(preAt(i), lenAt(i))) & (preAt(i + 1) <= preAt(N))));
    vc_assume(vc_imp(i <= N, (preAt(i) >= 0) & (preAt(i) <= preAt(N))) & (preAt(N) >= 0) & (preAt(N) < LIM));
}
static void known(size_t i, size_t j) {   // what follows from them (lemma pre_grows): prefix sums grow
    known(i);
    known(j);
    vc_assume(vc_imp((i < j) & (j <= N), preAt(i + 1) <= preAt(j)));
    vc_assume(vc_imp((j < i) & (i <= N), preAt(j + 1) <= preAt(i)));
}
template <class V>
static void poke(V& v, void* b, size_t n) {   // the vector holds these n elements
    if (vc_symbolic()) {
        ll** p = (ll**)&v;
        p[0] = (ll*)b;
        p[1] = p[2] = (ll*)b + n;
    }
    else {
        v.clear();
        for (size_t i = 0; i < n; i++) v.push_back(((ll*)b)[i]);
    }
}
struct Parts : PartHandle {
    Parts(Tape& t) : PartHandle(t, OffsetList(), LengthList()) {}
    ~Parts() {   // the storage is not the vectors'
        if (vc_symbolic()) {
            memset((void*)&offset_, 0, sizeof(offset_));
            memset((void*)&length_, 0, sizeof(length_));
        }
    }
};
static void setup(Parts& p, Tape& t) {
    it = &p;
    tape = &t;
    t.len = vc_size(40, "length");
    t.data = vc_bytes(t.len, "content");
    t.pos = 0;
    N = vc_size(5, "parts");
    vc_assume(N < (1ull << 32));
    offs = (ll*)vc_array(N, 8, "offset");
    lens = (ll*)vc_array(N, 8, "partlength");
    if (vc_symbolic()) {
        pre = (ll*)vc_array(N + 1, 8, "pre");
        vc_assume(preAt(0) == 0);
    }
    else {
        for (size_t i = 0; i < N; i++) {   // small parts inside the content
            offs[i] = t.len ? (size_t)offs[i] % t.len : 0;
            lens[i] = (size_t)lens[i] % 12;
            if (offs[i] + lens[i] > (ll)t.len) lens[i] = t.len - offs[i];
        }
        pre = new ll[N + 1];
        pre[0] = 0;
        for (size_t i = 0; i < N; i++) pre[i + 1] = pre[i] + lens[i];
    }
    poke(p.offset_, offs, N);
    poke(p.length_, lens, N);
}
static bool wf() {   // class invariant
    size_t i = it->index_;
    return (i <= N) & (it->pos_ >= 0) & vc_imp(it->pos_ > 0, (i < N) & (it->pos_ < lenAt(i)));
}
static ll at() { return plus(preAt(it->index_), it->pos_); }   // position in the concatenation of the parts
static size_t Q;   // the part holding the byte looked at
static void state(Parts& p) {
    p.index_ = vc_size(5, "index");
    p.pos_ = vc_size(12, "pos");
    if (!vc_symbolic()) {
        if (p.index_ > N) p.index_ = N;
        p.pos_ = p.index_ < N && lens[p.index_] ? p.pos_ % lens[p.index_] : 0;
    }
    known(p.index_);
    vc_assume(wf());
}
VC_HARNESS(pre_grows) {   // lemma: by induction on j
    vc_option("intlift", 1);
    N = vc_size(5, "parts");
    lens = (ll*)vc_array(N, 8, "partlength");
    pre = (ll*)vc_array(N + 1, 8, "pre");
    size_t i = vc_size(5, "i"), j = vc_size(5, "j");
    vc_assume(i < j && j < N);
    // base: j == i + 1 holds trivially; step: from j to j + 1
    vc_assume(preAt(i + 1) <= preAt(j) && lenAt(j) >= 0 && preAt(j) >= 0 && preAt(j) < LIM && lenAt(j) < LIM && preAt(j + 1) == preAt(j) + lenAt(j));
    vc_check(preAt(i + 1) <= preAt(j + 1), "prefix sums grow");
}
static size_t i0;
static ll at0;
static bool inv_empty(PartHandle*& self) {
    known(it->index_);
    return (self == it) & wf() & (it->index_ >= i0) & (at() == at0);
}
VC_HARNESS(part_read1) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartHandle::read1", 0, (void*)inv_empty);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    i0 = p.index_;
    at0 = at();
    size_t n = vc_size(12, "asked"), k = vc_size(12, "k");
    vc_assume(n > 0);
    char* out = (char*)vc_bytes(n, "out");
    byte old = k < n ? out[k] : 0;
    long r;
    try {
        r = p.read1(out, n);
    }
    catch (ReadError&) {
        Q = p.index_;
        known(Q);
        vc_check(Q < N && offAt(Q) + lenAt(Q) > (ll)t.len, "reading fails only where a part reaches beyond the handle");
        return;
    }
    known(p.index_);
    known(N);
    vc_check(r >= 0 && r <= (long)n, "never more than asked");
    if (r == 0) {
        vc_cover("end");
        vc_check(p.index_ == N && at0 == preAt(N), "nothing is delivered only when the parts are exhausted");
        return;
    }
    vc_cover("read");
    vc_check(wf() && at() == at0 + r, "the position moves by what was read");
    if (k >= (size_t)r && k < n) vc_check((byte)out[k] == old, "nothing beyond what was read is touched");
    // the byte looked at is in part Q
    Q = vc_size(5, "q");
    vc_assume(Q < N && k < (size_t)r);
    known(Q, p.index_);
    known(Q, p.index_ - 1);
    vc_assume(preAt(Q) <= at0 + (ll)k && at0 + (ll)k < preAt(Q + 1));
    vc_check((byte)out[k] == t.data[offAt(Q) + (at0 + (ll)k - preAt(Q))], "the bytes are those of the parts one after another");
}
static size_t K;
static byte want;
static char* out0;
static size_t L0;
static byte old0;
// contract of read1 (harness part_read1)
static long contract_read1(PartHandle* self, char* p, long n) {
    vc_check(n > 0 && self == it, "something is asked for");
    known(self->index_);
    known(N);
    vc_check(wf(), "class invariant is kept");
    ll before = at();
    if (before == preAt(N)) {
        self->index_ = N;
        self->pos_ = 0;
        return 0;
    }
    long r = vc_ghost_u64();
    vc_assume((r > 0) & (r <= n) & (plus(before, r) <= preAt(N)));
    vc_havoc(p, r);
    ll k = (size_t)K - ((size_t)before - (size_t)at0);
    bool here = (k >= 0) & (k < r);
    vc_assume(vc_imp(here, vc_at(p, k, here) == want));
    self->index_ = vc_ghost_u64();
    self->pos_ = vc_ghost_u64();
    known(self->index_);
    vc_assume(wf() & (at() == plus(before, r)));
    return r;
}
static bool inv_pread(PartHandle*& self, void*& buffer, long& length, char*& p, long& n, long& total) {
    known(it->index_);
    known(N);
    return (self == it) & (buffer == (void*)out0) & ((size_t)p == (size_t)out0 + size_t(total)) & (total >= 0) & (total <= (long)L0) & (size_t(length) == L0 - size_t(total)) & (n >= 0) &
           ((total > 0) == (n > 0)) & wf() & (at() == plus(at0, total)) & (at() <= preAt(N)) & (vc_at(out0, K, K < L0) == vc_ite((long)K < total, want, old0));
}
VC_HARNESS(part_read) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartHandle::read", 0, (void*)inv_pread);
    vc_replace("eckit::PartHandle::read1", (void*)contract_read1);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    known(N);
    at0 = at();
    L0 = vc_size(30, "asked");
    K = vc_size(30, "k");
    vc_assume(K < L0 || L0 == 0);
    out0 = (char*)vc_bytes(L0, "out");
    old0 = L0 ? out0[K] : 0;
    if (vc_symbolic()) want = vc_ghost_u64();   // whatever the K-th byte from here is
    else {
        ll x = at0 + K;
        for (size_t i = 0; i < N; i++)
            if (pre[i] <= x && x < pre[i + 1]) want = t.data[offs[i] + x - pre[i]];
    }
    size_t left = preAt(N) - at0;
    long r = p.read(out0, L0);
    vc_check(r == (long)(left < L0 ? left : L0), "reads what was asked for or what is left");
    known(p.index_);
    vc_check(wf() && at() == at0 + r, "the position moves by what was read");
    if (K < (size_t)r) vc_check((byte)out0[K] == want, "the bytes are those of the parts one after another");
    else if (L0) vc_check((byte)out0[K] == old0, "nothing beyond what was read is touched");
}
static bool inv_sum(Length*& __first, Length*& __last, Length& __init) { return true; }
static ll from0;
static bool inv_restart(PartHandle*& self, ll& len, ll& pos) {
    size_t i = it->index_;
    known(i);
    known(N);
    return (self == it) & (i <= N) & (pos == preAt(i)) & (len == from0) & vc_imp(from0 >= 0, from0 >= pos) & (it->pos_ == 0);
}
static Length contract_estimate(PartHandle* self) { known(N); return preAt(N); }
VC_HARNESS(part_restart) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartHandle::restartReadFrom", 0, (void*)inv_restart);
    vc_replace("eckit::PartHandle::estimate", (void*)contract_estimate);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    known(N);
    from0 = vc_irange(-1, LIM, "from");
    try {
        p.restartReadFrom(from0);
    }
    catch (AssertionFailed&) {
        vc_check(from0 < 0 || from0 >= preAt(N), "a position inside the parts is not refused");
        return;
    }
    known(p.index_);
    vc_check(wf() && at() == from0, "reading continues at the position asked for");
    vc_check(p.openForRead() == Length(preAt(N)) && at() == 0 && t.opened == 1, "opening starts over and announces the length of all parts");
    vc_check(p.write(&t, 1) == -1, "parts cannot be written");
    p.close();
    vc_check(t.opened == 0, "closing closes the handle");
}
static bool inv_acc(LengthList::iterator& __first, LengthList::iterator& __last, Length& __init) {
    size_t i = ((size_t)&*__first - (size_t)lens) / 8;
    known(i);
    known(N);
    return (i <= N) & ((size_t)&*__first == (size_t)lens + 8 * i) & ((size_t)&*__last == (size_t)lens + 8 * N) & ((ll)__init == preAt(i));
}
VC_HARNESS(part_estimate) {
    vc_option("intlift", 1);
    vc_loop("std::accumulate<__gnu_cxx::__normal_iterator<eckit::Length*, std::vector<eckit::Length, std::allocator<eckit::Length>>>, eckit::Length>", 0, (void*)inv_acc);
    Tape t;
    Parts p(t);
    setup(p, t);
    known(N);
    vc_check(p.estimate() == Length(preAt(N)), "the length is that of all parts together");
}
// ------------------------------------------------------------------ copying
struct Sink : DataHandle {   // byte number J, whatever is written
    size_t pos = 0;
    byte at = 0;
    int opened = 0;
    ll announced = -1;
    void print(std::ostream&) const override {}
    void openForWrite(const Length& n) override { pos = 0; opened++; announced = n; }
    void close() override { opened--; }
    long write(const void* p, long n) override {
        bool here = (K >= pos) & (K - pos < size_t(n));
        at = vc_ite(here, vc_at(p, K - pos, here), at);
        pos += n;
        return n;
    }
};
static Sink* sink;
static bool inv_copy(DataHandle*& self, long& bufsize, Length& toRead, Length& total, long& length) {
    bool done = K < sink->pos;
    return (self == tape) & (size_t(bufsize) == L0) & (tape->pos <= tape->len) & (tape->pos == sink->pos) & ((ll)total == (ll)tape->pos) & ((ll)toRead == from0) &
           (tape->opened == 1) & (sink->opened == 1) & ((length > 0) | ((length == -1) & (tape->pos == 0))) & vc_imp(from0 > 0, (ll)tape->pos <= from0) &
           vc_imp(done, sink->at == vc_at(tape->data, K, done));
}
VC_HARNESS(copy) {
    vc_option("intlift", 1);
    vc_loop("eckit::DataHandle::copyTo(eckit::DataHandle&, long, eckit::Length, eckit::TransferWatcher&)", 0, (void*)inv_copy);
    Tape t;
    Sink s;
    tape = &t;
    sink = &s;
    t.len = vc_size(40, "length");
    t.data = vc_bytes(t.len, "content");
    L0 = vc_size(12, "buffer");
    vc_assume(L0 > 0);
    bool limited = vc_bool("limited");
    ll max = limited ? (ll)vc_size(40, "most") : -1;
    K = vc_size(40, "k");
    from0 = limited && max < (ll)t.len ? max : t.len;   // announced
    vc_assume(!limited || max > 0);                      // 0 stands for unknown
    Length n = t.copyTo(s, L0, Length(max), TransferWatcher::dummy());
    vc_check((ll)n == from0 && s.pos == (size_t)from0, "everything up to the limit is copied");
    if (K < s.pos) vc_check(s.at == t.data[K], "byte for byte");
    vc_check(t.opened == 0 && s.opened == 0 && s.announced == from0, "both handles are closed, the length is announced");
}
// ------------------------------------------------------------------ MultiHandle: up to two or three handles of any length and content
static void concat(MultiHandle& m, Tape* h, size_t& n, size_t* start) {
    n = vc_split(vc_range(0, 2, "handles"), 0, 2);
    start[0] = 0;
    for (size_t i = 0; i < n; i++) {
        h[i].len = vc_size(10, "length");
        h[i].data = vc_bytes(h[i].len, "content");
        m.datahandles_.push_back(&h[i]);
        start[i + 1] = start[i] + h[i].len;
    }
    m.current_ = m.datahandles_.end();
}
static byte theByte(Tape* h, size_t n, size_t* start, size_t x) {
    for (size_t i = 0; i < n; i++)
        if (x >= start[i] && x < start[i + 1]) return h[i].data[x - start[i]];
    return 0;
}
VC_HARNESS(multi_read) {
    vc_option("intlift", 1);
    Tape h[3];
    MultiHandle m;
    size_t n, start[4];
    concat(m, h, n, start);
    size_t a = vc_size(20, "first"), b = vc_size(20, "second"), k = vc_size(40, "k"), all = start[n];
    byte* out = new byte[a + b];
    vc_check(m.openForRead() == Length(all), "opening announces the length of all handles");
    size_t wa = a < all ? a : all, wb = all - wa < b ? all - wa : b;
    vc_check(m.read(out, a) == (long)wa, "reads what was asked for or what is left");
    vc_check(m.position() == Offset(wa), "the position is that in the concatenation");
    vc_check(m.read(out + wa, b) == (long)wb, "reads what was asked for or what is left");
    if (k < wa + wb) vc_check(out[k] == theByte(h, n, start, k), "the bytes are those of the handles one after another");
    m.close();
    for (size_t i = 0; i < n; i++) vc_check(h[i].opened == 0, "every handle opened is closed");
    m.datahandles_.clear();
}
VC_HARNESS(multi_seek) {
    vc_option("intlift", 1);
    Tape h[3];
    MultiHandle m;
    size_t n, start[4];
    concat(m, h, n, start);
    size_t to = vc_size(40, "to"), b = vc_size(20, "then"), k = vc_size(20, "k"), all = start[n];
    byte* out = new byte[b];
    m.openForRead();
    bool restart = vc_bool("restart");
    try {
        if (restart) m.restartReadFrom(to);
        else m.seek(to);
    }
    catch (AssertionFailed&) {
        vc_check(to > all, "a position within the concatenation is not refused");
        m.datahandles_.clear();
        return;
    }
    vc_check(to <= all, "a position beyond the end is refused");
    vc_check(m.position() == Offset(to), "the position is the one asked for");
    size_t w = all - to < b ? all - to : b;
    vc_check(m.read(out, b) == (long)w, "reads what was asked for or what is left");
    if (k < w) vc_check(out[k] == theByte(h, n, start, to + k), "reading goes on from there");
    m.datahandles_.clear();
}
VC_HARNESS(multi_write) {
    vc_option("intlift", 1);
    Sink h[3];
    MultiHandle m;
    size_t n = vc_split(vc_range(1, 3, "handles"), 1, 3), start[4] = {0, 0, 0, 0};
    for (size_t i = 0; i < n; i++) {
        size_t l = vc_size(8, "length");
        vc_assume(l > 0);
        m.datahandles_.push_back(&h[i]);
        m += Length(l);
        start[i + 1] = start[i] + l;
    }
    size_t all = start[n], a = vc_size(24, "first");
    vc_assume(a > 0 && a <= all);
    byte* d = vc_bytes(all + 1, "data");
    size_t w = vc_split(vc_range(0, n - 1, "which"), 0, 2);
    K = vc_size(8, "k");
    m.openForWrite(all);
    vc_check(m.write(d, a) == (long)a, "everything is taken");
    if (a < all) vc_check(m.write(d + a, all - a) == (long)(all - a), "everything is taken");
    vc_check(VC_THROWS(m.write(d, 1)), "nothing is taken beyond the lengths announced");
    m.close();
    vc_check(h[w].pos == start[w + 1] - start[w] && h[w].opened == 0, "every handle gets its length and is closed");
    if (K < h[w].pos) vc_check(h[w].at == d[start[w] + K], "every handle gets its bytes");
    m.datahandles_.clear();
}
