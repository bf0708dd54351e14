// C10b: parts of a file; lists of parts sorted and merged
//@ tus: io/PartFileHandle.cc io/Buffer.cc io/Length.cc io/Offset.cc io/DataHandle.cc serialisation/Streamable.cc exception/Exceptions.cc thread/Mutex.cc
//@ assume: the pooled file delivers what is asked for or what is left (C15)
#include "vc.h"
#include <cstring>
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/exception/Exceptions.h"
#ifdef VC_NATIVE
#include "eckit/runtime/Main.h"
#endif
using namespace eckit;
typedef unsigned char byte;
typedef long long ll;

static size_t least(size_t a, size_t b) { return vc_ite(a < b, a, b); }
struct Tape : DataHandle {
    byte* data;
    size_t len, pos;
    int opened = 0;
    void print(std::ostream&) const override {}
    Length openForRead() override { pos = 0; opened++; return len; }
    void close() override { opened--; }
    void rewind() override { pos = 0; }
    Length estimate() override { return len; }
    Length size() override { return len; }
    Offset position() override { return pos; }
    bool canSeek() const override { return true; }
    Offset seek(const Offset& o) override { pos = (ll)o; return o; }
    void restartReadFrom(const Offset& o) override { pos = (ll)o; }
    long read(void* p, long n) override {
        if (n < 0) return -1;
        size_t m = vc_ite(pos < len, least(n, len - pos), 0);
        memcpy(p, data + vc_ite(pos < len, pos, 0), m);
        pos += m;
        return m;
    }
};
// ------------------------------------------------------------------ PartFileHandle
// ghost: pre[i] is the number of bytes in the parts before i
static PartFileHandle* it;
static Tape* tape;
static size_t N;
static ll *offs, *lens, *pre;
static const ll LIM = 1ll << 50;
static ll lenAt(size_t i) { return vc_peek(lens, i, 8, i < N); }
static ll offAt(size_t i) { return vc_peek(offs, i, 8, i < N); }
static ll preAt(size_t i) { return vc_peek(pre, i, 8, i <= N); }
static ll plus(ll a, ll b) { return (ll)((size_t)a + (size_t)b); }   // (no overflow where the values are in range)
static void known(size_t i) {   // the definition of pre and the range of the parts, at i
    vc_assume(vc_imp(i < N, (lenAt(i) >= 0) & (lenAt(i) < LIM) & (offAt(i) >= 0) & (offAt(i) < LIM) & (preAt(i + 1) == plus(preAt(i), lenAt(i))) & (preAt(i + 1) <= preAt(N))));
    vc_assume(vc_imp(i <= N, (preAt(i) >= 0) & (preAt(i) <= preAt(N))) & (preAt(N) >= 0) & (preAt(N) < LIM));
}
static void known(size_t i, size_t j) {   // what follows from them (lemma pf_pre_grows): prefix sums grow
    known(i);
    known(j);
    vc_assume(vc_imp((i < j) & (j <= N), preAt(i + 1) <= preAt(j)));
    vc_assume(vc_imp((j < i) & (i <= N), preAt(j + 1) <= preAt(i)));
}
template <class V>
static void poke(V& v, void* b, size_t n) {   // the vector holds these n elements
    if (vc_symbolic()) {
        ll** p = (ll**)&v;
        p[0] = (ll*)b;
        p[1] = p[2] = (ll*)b + n;
    }
    else {
        v.clear();
        for (size_t i = 0; i < n; i++) v.push_back(((ll*)b)[i]);
    }
}
static void p_copy(PathName*, const PathName&) {}
static void p_make(PathName*, const char*, bool) {}
static void p_dtor(PathName*) {}
static PathName& aPath() {
#ifdef VC_NATIVE
    static char name[] = "vc", *args[] = {name, nullptr};
    if (!Main::ready()) Main::initialise(1, args);
    static PathName p("/tmp/x");
    return p;
#else
    vc_replace("eckit::PathName::PathName(eckit::PathName const&)", (void*)p_copy);
    vc_replace("eckit::PathName::~PathName", (void*)p_dtor);
    static byte b[sizeof(PathName)];
    return *(PathName*)b;
#endif
}
struct Parts : PartFileHandle {
    Parts(Tape& t) : PartFileHandle(aPath(), 0, 0) {
        handle_.reset((PooledHandle*)(DataHandle*)&t);   // (only what every DataHandle has is used of it)
        if (vc_symbolic()) {
            memset((void*)&offset_, 0, sizeof(offset_));
            memset((void*)&length_, 0, sizeof(length_));
        }
    }
    ~Parts() {
        handle_.release();   // the storage is not the vectors'
        if (vc_symbolic()) {
            memset((void*)&offset_, 0, sizeof(offset_));
            memset((void*)&length_, 0, sizeof(length_));
        }
    }
};
static void setup(Parts& p, Tape& t) {
    it = &p;
    tape = &t;
    t.len = vc_size(40, "length");
    t.data = vc_bytes(t.len, "content");
    t.pos = 0;
    N = vc_size(5, "parts");
    vc_assume(N < (1ull << 32));
    offs = (ll*)vc_array(N, 8, "offset");
    lens = (ll*)vc_array(N, 8, "partlength");
    if (vc_symbolic()) {
        pre = (ll*)vc_array(N + 1, 8, "pre");
        vc_assume(preAt(0) == 0);
    }
    else {
        for (size_t i = 0; i < N; i++) {   // small parts inside the content
            offs[i] = t.len ? (size_t)offs[i] % t.len : 0;
            lens[i] = (size_t)lens[i] % 12;
            if (offs[i] + lens[i] > (ll)t.len) lens[i] = t.len - offs[i];
        }
        pre = new ll[N + 1];
        pre[0] = 0;
        for (size_t i = 0; i < N; i++) pre[i + 1] = pre[i] + lens[i];
    }
    poke(p.offset_, offs, N);
    poke(p.length_, lens, N);
}
static bool wf() {   // class invariant
    size_t i = it->index_;
    return (i <= N) & (it->pos_ >= 0) & vc_imp(it->pos_ > 0, (i < N) & (it->pos_ < lenAt(i)));
}
static ll at() { return plus(preAt(it->index_), it->pos_); }   // position in the concatenation of the parts
static size_t Q;   // the part holding the byte looked at
static void state(Parts& p) {
    p.index_ = vc_size(5, "index");
    p.pos_ = vc_size(12, "pos");
    if (!vc_symbolic()) {
        if (p.index_ > N) p.index_ = N;
        p.pos_ = p.index_ < N && lens[p.index_] ? p.pos_ % lens[p.index_] : 0;
    }
    known(p.index_);
    vc_assume(wf());
}
VC_HARNESS(pf_pre_grows) {   // lemma: by induction on j
    vc_option("intlift", 1);
    N = vc_size(5, "parts");
    lens = (ll*)vc_array(N, 8, "partlength");
    pre = (ll*)vc_array(N + 1, 8, "pre");
    size_t i = vc_size(5, "i"), j = vc_size(5, "j");
    vc_assume(i < j && j < N);
    // base: j == i + 1 holds trivially; step: from j to j + 1
    vc_assume(preAt(i + 1) <= preAt(j) && lenAt(j) >= 0 && preAt(j) >= 0 && preAt(j) < LIM && lenAt(j) < LIM && preAt(j + 1) == preAt(j) + lenAt(j));
    vc_check(preAt(i + 1) <= preAt(j + 1), "prefix sums grow");
}
static size_t i0;
static ll at0;
static bool inv_empty(PartFileHandle*& self) {
    known(it->index_);
    return (self == it) & wf() & (it->index_ >= i0) & (at() == at0);
}
VC_HARNESS(pf_read1) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartFileHandle::read1", 0, (void*)inv_empty);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    i0 = p.index_;
    at0 = at();
    size_t n = vc_size(12, "asked"), k = vc_size(12, "k");
    vc_assume(n > 0);
    char* out = (char*)vc_bytes(n, "out");
    byte old = k < n ? out[k] : 0;
    long r;
    try {
        r = p.read1(out, n);
    }
    catch (ReadError&) {
        Q = p.index_;
        known(Q);
        vc_check(Q < N && offAt(Q) + lenAt(Q) > (ll)t.len, "reading fails only where a part reaches beyond the handle");
        return;
    }
    known(p.index_);
    known(N);
    vc_check(r >= 0 && r <= (long)n, "never more than asked");
    if (r == 0) {
        vc_cover("end");
        vc_check(p.index_ == N && at0 == preAt(N), "nothing is delivered only when the parts are exhausted");
        return;
    }
    vc_cover("read");
    vc_check(wf() && at() == at0 + r, "the position moves by what was read");
    if (k >= (size_t)r && k < n) vc_check((byte)out[k] == old, "nothing beyond what was read is touched");
    // the byte looked at is in part Q
    Q = vc_size(5, "q");
    vc_assume(Q < N && k < (size_t)r);
    known(Q, p.index_);
    known(Q, p.index_ - 1);
    vc_assume(preAt(Q) <= at0 + (ll)k && at0 + (ll)k < preAt(Q + 1));
    vc_check((byte)out[k] == t.data[offAt(Q) + (at0 + (ll)k - preAt(Q))], "the bytes are those of the parts one after another");
}
static size_t K;
static byte want;
static char* out0;
static size_t L0;
static byte old0;
// contract of read1 (harness pf_read1)
static long contract_read1(PartFileHandle* self, char* p, long n) {
    vc_check(n > 0 && self == it, "something is asked for");
    known(self->index_);
    known(N);
    vc_check(wf(), "class invariant is kept");
    ll before = at();
    if (before == preAt(N)) {
        self->index_ = N;
        self->pos_ = 0;
        return 0;
    }
    long r = vc_ghost_u64();
    vc_assume((r > 0) & (r <= n) & (plus(before, r) <= preAt(N)));
    vc_havoc(p, r);
    ll k = (size_t)K - ((size_t)before - (size_t)at0);
    bool here = (k >= 0) & (k < r);
    vc_assume(vc_imp(here, vc_at(p, k, here) == want));
    self->index_ = vc_ghost_u64();
    self->pos_ = vc_ghost_u64();
    known(self->index_);
    vc_assume(wf() & (at() == plus(before, r)));
    return r;
}
static bool inv_pread(PartFileHandle*& self, void*& buffer, long& length, char*& p, long& n, long& total) {
    known(it->index_);
    known(N);
    return (self == it) & (buffer == (void*)out0) & ((size_t)p == (size_t)out0 + size_t(total)) & (total >= 0) & (total <= (long)L0) & (size_t(length) == L0 - size_t(total)) & (n >= 0) &
           ((total > 0) == (n > 0)) & wf() & (at() == plus(at0, total)) & (at() <= preAt(N)) & (vc_at(out0, K, K < L0) == vc_ite((long)K < total, want, old0));
}
VC_HARNESS(pf_read) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartFileHandle::read", 0, (void*)inv_pread);
    vc_replace("eckit::PartFileHandle::read1", (void*)contract_read1);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    known(N);
    at0 = at();
    L0 = vc_size(30, "asked");
    K = vc_size(30, "k");
    vc_assume(K < L0 || L0 == 0);
    out0 = (char*)vc_bytes(L0, "out");
    old0 = L0 ? out0[K] : 0;
    if (vc_symbolic()) want = vc_ghost_u64();   // whatever the K-th byte from here is
    else {
        ll x = at0 + K;
        for (size_t i = 0; i < N; i++)
            if (pre[i] <= x && x < pre[i + 1]) want = t.data[offs[i] + x - pre[i]];
    }
    size_t left = preAt(N) - at0;
    long r = p.read(out0, L0);
    vc_check(r == (long)(left < L0 ? left : L0), "reads what was asked for or what is left");
    known(p.index_);
    vc_check(wf() && at() == at0 + r, "the position moves by what was read");
    if (K < (size_t)r) vc_check((byte)out0[K] == want, "the bytes are those of the parts one after another");
    else if (L0) vc_check((byte)out0[K] == old0, "nothing beyond what was read is touched");
}
static bool inv_sum(Length*& __first, Length*& __last, Length& __init) { return true; }
static ll from0;
static bool inv_restart(PartFileHandle*& self, ll& len, ll& pos) {
    size_t i = it->index_;
    known(i);
    known(N);
    return (self == it) & (i <= N) & (pos == preAt(i)) & (len == from0) & vc_imp(from0 >= 0, from0 >= pos) & (it->pos_ == 0);
}
static Length contract_estimate(PartFileHandle* self) { known(N); return preAt(N); }
VC_HARNESS(pf_restart) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartFileHandle::restartReadFrom", 0, (void*)inv_restart);
    vc_replace("eckit::PartFileHandle::estimate", (void*)contract_estimate);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    known(N);
    from0 = vc_irange(-1, LIM, "from");
    try {
        p.restartReadFrom(from0);
    }
    catch (AssertionFailed&) {
        vc_check(from0 < 0 || from0 >= preAt(N), "a position inside the parts is not refused");
        return;
    }
    known(p.index_);
    vc_check(wf() && at() == from0, "reading continues at the position asked for");
    vc_check(p.openForRead() == Length(preAt(N)) && at() == 0 && t.opened == 1, "opening starts over and announces the length of all parts");
    bool refused = false;
    try {
        p.write(&t, 1);
    }
    catch (Exception&) {
        refused = true;
    }
    vc_check(refused, "parts cannot be written");
    p.close();
    vc_check(t.opened == 0, "closing closes the handle");
}
static bool inv_acc(LengthList::iterator& __first, LengthList::iterator& __last, Length& __init) {
    size_t i = ((size_t)&*__first - (size_t)lens) / 8;
    known(i);
    known(N);
    return (i <= N) & ((size_t)&*__first == (size_t)lens + 8 * i) & ((size_t)&*__last == (size_t)lens + 8 * N) & ((ll)__init == preAt(i));
}
static bool inv_seek(PartFileHandle*& self, const ll& seekto, ll& accumulated) {
    size_t i = it->index_;
    known(i);
    known(N);
    return (self == it) & (i <= N) & (accumulated == preAt(i)) & (seekto == from0) & vc_imp(from0 >= 0, from0 >= accumulated) & (it->pos_ == 0);
}
static bool inv_position(PartFileHandle*& self, ll& position, Ordinal& i) {
    known(i);
    known(N);
    return (self == it) & (i <= it->index_) & (it->index_ <= N) & (position == preAt(i));
}
VC_HARNESS(pf_seek) {
    vc_option("intlift", 1);
    vc_loop("eckit::PartFileHandle::seek", 0, (void*)inv_seek);
    vc_loop("eckit::PartFileHandle::position", 0, (void*)inv_position);
    Tape t;
    Parts p(t);
    setup(p, t);
    state(p);
    known(N);
    vc_check(p.canSeek(), "seeking is possible");
    from0 = vc_irange(-1, LIM, "to");
    try {
        vc_check((ll)p.seek(from0) == from0, "the position asked for is returned");
    }
    catch (AssertionFailed&) {
        vc_cover("refused");
        vc_check(from0 < 0 || from0 > preAt(N), "a position inside the parts is not refused");
        return;
    }
    vc_cover("moved");
    known(p.index_);
    vc_check(wf() && at() == from0, "reading continues at the position asked for");
    vc_check((ll)p.position() == from0, "the position is reported");
}
VC_HARNESS(pf_estimate) {
    vc_option("intlift", 1);
    vc_loop("std::accumulate<__gnu_cxx::__normal_iterator<eckit::Length*, std::vector<eckit::Length, std::allocator<eckit::Length>>>, eckit::Length>", 0, (void*)inv_acc);
    Tape t;
    Parts p(t);
    setup(p, t);
    known(N);
    vc_check(p.estimate() == Length(preAt(N)) && p.size() == Length(preAt(N)), "the length is that of all parts together");
}
// ------------------------------------------------------------------ lists of parts
//@ harness list_sort: bounded unroll=30
//@ harness list_compress: bounded unroll=30
//@ harness list_accumulate: bounded unroll=30
static size_t lists(OffsetList& o, LengthList& l, size_t most) {
    size_t n = vc_range(0, most, "n");
    offs = (ll*)vc_array(most, 8, "offset");
    lens = (ll*)vc_array(most, 8, "length");
    for (size_t i = 0; i < most; i++) {
        if (!vc_symbolic()) offs[i] = (size_t)offs[i] % 16, lens[i] = (size_t)lens[i] % 4;
        vc_assume(offs[i] >= 0 && offs[i] < LIM && lens[i] >= 0 && lens[i] < LIM);
    }
    o.reserve(most);
    l.reserve(most);
    for (size_t i = 0; i < n; i++) {
        o.push_back(offs[i]);
        l.push_back(lens[i]);
    }
    return n;
}
VC_HARNESS(list_sort) {
    vc_option("intlift", 1);
    const size_t MOST = vc_symbolic() ? 3 : 7;
    OffsetList o;
    LengthList l;
    size_t n = lists(o, l, MOST);
    ll a = vc_irange(0, 20, "offset looked for"), b = vc_irange(0, 20, "length looked for");
    size_t before = 0, after = 0;
    for (size_t i = 0; i < n; i++) before += offs[i] == a && lens[i] == b;
    eckit::sort(o, l);
    vc_check(o.size() == n && l.size() == n, "no part is lost or added by sorting");
    for (size_t i = 0; i < n; i++) {
        after += (ll)o[i] == a && (ll)l[i] == b;
        if (i > 0) vc_check((ll)o[i - 1] <= (ll)o[i], "parts are sorted by where they start");
    }
    vc_check(after == before, "each part is there as often as before sorting");
}
static ll where(const ll* o, const ll* l, size_t n, ll x) {   // where byte x of the parts is in the handle
    for (size_t i = 0; i < n; i++) {
        if (x < l[i]) return o[i] + x;
        x -= l[i];
    }
    return -1;
}
VC_HARNESS(list_compress) {
    vc_option("intlift", 1);
    const size_t MOST = vc_symbolic() ? 3 : 7;
    OffsetList o;
    LengthList l;
    size_t n = lists(o, l, MOST);
    ll x = vc_irange(0, vc_symbolic() ? LIM : 20, "byte");
    ll want = where(offs, lens, n, x);
    bool less = eckit::compress(o, l);
    vc_check(o.size() == l.size() && o.size() <= n && less == (o.size() < n), "it tells whether parts were merged");
    vc_check(where((ll*)o.data(), (ll*)l.data(), o.size(), x) == want, "merging parts keeps the sequence of bytes");
    for (size_t i = 1; i < o.size(); i++) vc_check(o[i - 1] + l[i - 1] != o[i], "parts that follow one another are merged");
}
VC_HARNESS(list_accumulate) {
    vc_option("intlift", 1);
    const size_t MOST = vc_symbolic() ? 3 : 7;
    OffsetList o;
    LengthList l;
    size_t n = lists(o, l, MOST);
    ll from = vc_irange(0, LIM, "from");
    accumulate(l, o, from);
    vc_check(o.size() == n, "one offset per length");
    ll at = from;
    for (size_t i = 0; i < n; i++) {
        vc_check((ll)o[i] == at && (ll)l[i] == lens[i], "each part starts where the one before ends");
        at += lens[i];
    }
}
