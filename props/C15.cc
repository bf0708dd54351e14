// C15: several readers of one pooled file
//@ tus: io/DataHandle.cc io/Length.cc io/Offset.cc io/Buffer.cc serialisation/Streamable.cc exception/Exceptions.cc thread/Mutex.cc
//@ assume: fopen, fread, fseeko, ftello, fclose do what POSIX says; a DataHandle shared through the pool reads at its position what is there, possibly less than asked
#include "vc.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include "eckit/io/PooledFile.cc"
#include "eckit/io/PooledHandle.cc"
#include "eckit/config/Resource.h"
#ifdef VC_NATIVE
#include <dlfcn.h>
#include <fstream>
#include <stdlib.h>
#include "eckit/runtime/Main.h"
#endif
using namespace eckit;
typedef unsigned char byte;
typedef long long ll;

static byte fake[512];
static FILE* const F = (FILE*)fake;
static byte* content;
static size_t len, where, K;
static bool armed, failOpen, failSeek, failRead, failClose, sticky, isOpen;
static int opens, closes;
static size_t least(size_t a, size_t b) { return vc_ite(a < b, a, b); }
static size_t deliver(void* p, size_t n) {   // what is left at the position, or some of it
    size_t left = vc_ite(where < len, len - where, 0);
    size_t m = least(n, left);
    memcpy(p, content + vc_ite(m > 0, where, 0), m);
    where += m;
    return m;
}
extern "C" {
#ifdef VC_NATIVE
#define OTHER(cond, name, ret, types, args) \
    if (!(cond)) return ((ret(*) types)dlsym(RTLD_NEXT, #name)) args;
#else
#define OTHER(cond, name, ret, types, args) vc_check(cond, "the C library is called with the pooled file, while it is open");
#endif
FILE* fopen(const char* n, const char* m) {
    OTHER(armed, fopen, FILE*, (const char*, const char*), (n, m))
    if (failOpen) { errno = ENOENT; return nullptr; }
    opens++;
    where = 0;
    isOpen = true;
    return F;
}
size_t fread(void* p, size_t size, size_t n, FILE* f) {
    OTHER(f == F, fread, size_t, (void*, size_t, size_t, FILE*), (p, size, n, f))
    vc_check(isOpen && size == 1, "the C library is called with the pooled file, while it is open");
    if (failRead && n > 0) { sticky = true; return 0; }
    return deliver(p, n);
}
int ferror(FILE* f) noexcept {
    OTHER(f == F, ferror, int, (FILE*), (f))
    return sticky;
}
int fclose(FILE* f) {
    OTHER(f == F, fclose, int, (FILE*), (f))
    vc_check(isOpen, "the C library is called with the pooled file, while it is open");
    isOpen = false;
    closes++;
    if (failClose) { errno = EIO; return EOF; }
    return 0;
}
int fseeko(FILE* f, off_t o, int whence) {
    OTHER(f == F, fseeko, int, (FILE*, off_t, int), (f, o, whence))
    vc_check(isOpen, "the C library is called with the pooled file, while it is open");
    if (failSeek) { errno = EINVAL; return -1; }
    where = whence == SEEK_SET ? o : whence == SEEK_CUR ? where + o : len + o;
    return 0;
}
off_t ftello(FILE* f) {
    OTHER(f == F, ftello, off_t, (FILE*), (f))
    return where;
}
int fileno(FILE* f) noexcept {
    OTHER(f == F, fileno, int, (FILE*), (f))
    return 77;
}
}
static void r_ctor(void*, void*, const std::string&) {}
static void r_any(void*) {}
static void library() {
#ifdef VC_NATIVE
    static char name[] = "vc", *args[] = {name, nullptr};
    if (!Main::ready()) Main::initialise(1, args);
#endif
    vc_option("intlift", 1);
    vc_replace("eckit::ResourceBase::ResourceBase", (void*)r_ctor);
    vc_replace("eckit::ResourceBase::~ResourceBase", (void*)r_any);
    vc_replace("eckit::ResourceBase::init", (void*)r_any);
    failOpen = failSeek = failRead = failClose = sticky = isOpen = armed = false;
    opens = closes = 0;
    where = 0;
    len = vc_size(30, "content length");
    content = vc_bytes(len, "content");
}
static byte users[64];
static byte* buf0;
static size_t L0;
static void given() {
    L0 = vc_size(20, "length");
    buf0 = vc_bytes(L0, "data");
    K = vc_size(20, "k");
}
// ------------------------------------------------------------------ PooledFile: two of any number of users, any state
VC_HARNESS(file_users) {
    library(), given();
    PoolFileEntry& e = *new PoolFileEntry("pooled");
    const PooledFile *a = (PooledFile*)(users + 8 * vc_split(vc_range(1, 2, "which"), 1, 2)), *b = (PooledFile*)(users + 8), *c = (PooledFile*)(users + 16), *none = (PooledFile*)users;
    e.add(b), e.add(c);
    bool there = isOpen = vc_bool("file is open");
    e.file_ = there ? F : nullptr;
    where = vc_range(0, 1ull << 45, "file position");
    off_t pos = vc_range(0, vc_bounded() ? 40 : 1ull << 45, "position"), pos2 = vc_range(0, 1ull << 45, "other position");
    bool open = there && vc_bool("opened"), open2 = there && vc_bool("other opened");
    const PooledFile* o = a == b ? c : b;
    e.statuses_[a].position_ = pos, e.statuses_[a].opened_ = open;
    e.statuses_[o].position_ = pos2, e.statuses_[o].opened_ = open2;
    failOpen = vc_bool("open fails"), failSeek = vc_bool("seek fails"), failRead = vc_bool("read fails");
    bool refused = false, now = open;
    off_t to = pos;
    armed = true;
    switch (vc_split(vc_range(0, 6, "op"), 0, 6)) {
        case 0:
            refused = VC_THROWS(e.open(a));
            armed = false;
            vc_check(refused == (open || (!there && failOpen)), "opening fails only if it is open already or cannot be opened");
            if (!refused) now = true, to = 0;
            vc_check(opens == (open || there || failOpen ? 0 : 1), "the file is opened once for all");
            break;
        case 1:
            refused = VC_THROWS(e.close(a));
            vc_check(refused == !open && closes == 0, "closing leaves the file open for the others");
            now = false;
            break;
        case 2: {
            long n = 0;
            refused = VC_THROWS(n = e.read(a, buf0, L0));
            vc_check(refused == (!open || failSeek || (failRead && L0 > 0)), "an error is reported");
            if (!refused) {
                size_t left = size_t(pos) < len ? len - pos : 0;
                vc_check(n == (long)(L0 < left ? L0 : left), "reads what was asked for or what is left");
                if (K < size_t(n)) vc_check(buf0[K] == content[pos + K], "each reader gets the bytes at its own position");
                to = pos + n;
            }
            break;
        }
        case 3: {
            off_t want = vc_range(0, 1ull << 45, "to"), r = 0;
            refused = VC_THROWS(r = e.seek(a, want));
            vc_check(refused == (!open || failSeek), "a failed move is reported");
            if (!refused) vc_check(r == want, "seeking returns the position"), to = want;
            break;
        }
        case 4: {
            off_t r = 0;
            refused = VC_THROWS(r = e.seekEnd(a));
            vc_check(refused == (!open || failSeek), "a failed move is reported");
            if (!refused) vc_check(r == (off_t)len, "seeking to the end returns its position"), to = len;
            break;
        }
        case 5: {
            int fd = 0;
            refused = VC_THROWS(fd = e.fileno(a));
            vc_check(refused == !open && (refused || fd == 77), "the descriptor is that of the file");
            break;
        }
        default: {
            vc_check(VC_THROWS(e.read(none, buf0, L0)) && VC_THROWS(e.seek(none, 0)) && VC_THROWS(e.open(none)) && VC_THROWS(e.close(none)) && VC_THROWS(e.remove(none)), "only users of the file can use it");
            vc_check(VC_THROWS(e.add(a)), "a user is there once");
            e.remove(o);
            vc_check(e.statuses_.size() == 1 && closes == 0, "the file stays open while it has a user");
            e.add(o);
            e.statuses_[o].position_ = pos2, e.statuses_[o].opened_ = open2;
        }
    }
    armed = false;
    vc_check(e.statuses_.size() == 2 && (e.file_ == F) == isOpen, "the file is open for its users");
    vc_check(e.statuses_[o].position_ == pos2 && e.statuses_[o].opened_ == open2, "the other readers are not affected");
    vc_check(e.statuses_[a].opened_ == now, "open as long as not closed");
    if (now) vc_check(e.statuses_[a].position_ == to, "each reader has its own position");
}
// ------------------------------------------------------------------ PooledHandle
struct Tape : DataHandle {
    void print(std::ostream&) const override {}
    Length openForRead() override { where = 0; return len; }
    void close() override { isOpen = false; closes++; }
    Offset position() override { return where; }
    bool canSeek() const override { return true; }
    Offset seek(const Offset& o) override {
        if (failSeek) throw std::exception();
        where = ll(o);
        return o;
    }
    long read(void* p, long n) override {
        if (failRead) throw std::exception();
        return deliver(p, vc_bool("short read") ? vc_range(0, n, "at most") : n);
    }
};
VC_HARNESS(handle_users) {
    library(), given();
    static_assert(sizeof(PoolHandleEntry) <= 256, "");
    byte* m = new byte[sizeof(PoolHandleEntry)];
    memset(m, 0, sizeof(PoolHandleEntry));
    PoolHandleEntry& e = *(PoolHandleEntry*)m;
    new (&e.statuses_) std::map<const PooledHandle*, PoolHandleEntryStatus>();
    new (&e.handle_) std::unique_ptr<DataHandle>(new Tape);
    e.estimate_ = Length(len);
    PooledHandle *a = (PooledHandle*)(users + 8 * vc_split(vc_range(1, 2, "which"), 1, 2)), *b = (PooledHandle*)(users + 8), *c = (PooledHandle*)(users + 16), *none = (PooledHandle*)users;
    PooledHandle* o = a == b ? c : b;
    e.add(b), e.add(c);
    where = vc_range(0, 1ull << 45, "file position");
    ll pos = vc_range(0, vc_bounded() ? 40 : 1ull << 45, "position"), pos2 = vc_range(0, 1ull << 45, "other position");
    bool open = vc_bool("opened"), open2 = vc_bool("other opened");
    e.statuses_[a].position_ = pos, e.statuses_[a].opened_ = open;
    e.statuses_[o].position_ = pos2, e.statuses_[o].opened_ = open2;
    failSeek = vc_bool("seek fails"), failRead = vc_bool("read fails");
    bool refused = false, now = open;
    ll to = pos;
    switch (vc_split(vc_range(0, 5, "op"), 0, 5)) {
        case 0: {
            Length l = 0;
            refused = VC_THROWS(l = e.open(a));
            vc_check(refused == open, "opening fails only if it is open already");
            if (!refused) vc_check(l == Length(len), "opening announces the length"), now = true, to = 0;
            break;
        }
        case 1:
            refused = VC_THROWS(e.close(a));
            vc_check(refused == !open && closes == 0, "closing leaves the file open for the others");
            now = false;
            break;
        case 2: {
            long n = 0;
            refused = VC_THROWS(n = e.read(a, buf0, L0));
            vc_check(refused == (!open || failSeek || failRead), "an error is reported");
            if (!refused) {
                vc_check(n <= (long)L0 && (pos + n <= (ll)len || n == 0), "never more than asked or there is");
                if (K < size_t(n)) vc_check(buf0[K] == content[pos + K], "each reader gets the bytes at its own position");
                to = pos + n;
            }
            break;
        }
        case 3: {
            ll want = vc_range(0, 1ull << 45, "to");
            long r = 0;
            refused = VC_THROWS(r = e.seek(a, want));
            vc_check(refused == (!open || failSeek), "a failed move is reported");
            if (!refused) vc_check(r == want, "seeking returns the position"), to = want;
            break;
        }
        case 4: {
            byte* q = new byte[sizeof(PooledHandle)];
            memset(q, 0, sizeof(PooledHandle));
            PooledHandle& h = *(PooledHandle*)q;   // a handle of this entry
            h.entry_ = &e;
            e.add(&h);
            ll pos3 = vc_range(0, 1ull << 45, "third position");
            e.statuses_[&h].position_ = pos3, e.statuses_[&h].opened_ = true;
            vc_check(h.PooledHandle::position() == Offset(pos3), "each reader has its own position");
            e.remove(&h);
            break;
        }
        default:
            vc_check(VC_THROWS(e.read(none, buf0, L0)) && VC_THROWS(e.seek(none, 0)) && VC_THROWS(e.open(none)) && VC_THROWS(e.close(none)) && VC_THROWS(e.remove(none)), "only users of the file can use it");
            vc_check(VC_THROWS(e.add(a)), "a user is there once");
            vc_check(e.canClose() == (!open && !open2), "the file may be closed when no one has it open");
    }
    vc_check(e.statuses_.size() == 2 && e.handle_, "the file is open for its users");
    vc_check(e.statuses_[o].position_ == Offset(pos2) && e.statuses_[o].opened_ == open2, "the other readers are not affected");
    vc_check(e.statuses_[a].opened_ == now, "open as long as not closed");
    if (now) vc_check(e.statuses_[a].position_ == Offset(to), "each reader has its own position");
}
// ------------------------------------------------------------------ any number of readers on a real file (failing inputs only)
#ifdef VC_NATIVE
static std::string scratch() {
    static std::string dir;
    if (dir.empty()) {
        char t[] = "/tmp/vcpool.XXXXXX";
        dir = ::mkdtemp(t);
        atexit([] { ::unlink((dir + "/f").c_str()); ::rmdir(dir.c_str()); });
    }
    return dir + "/f";
}
template <class R>
static void history() {
    library();
    std::string name = scratch();
    { std::ofstream f(name, std::ios::binary | std::ios::trunc); f.write((char*)content, len); }
    R* r[3] = {};
    size_t pos[3] = {};
    bool open[3] = {};
    size_t n = vc_range(0, 14, "operations");
    for (size_t i = 0; i < n; i++) {
        size_t u = vc_range(0, 2, "who");
        unsigned op = vc_range(0, 5, "op");
        if (!r[u]) { r[u] = new R(name); open[u] = false; }
        else if (op == 0 && !vc_range(0, 3, "leave")) { delete r[u]; r[u] = nullptr; continue; }
        if (!open[u]) {
            if constexpr (std::is_same<R, PooledFile>::value) r[u]->open(); else r[u]->openForRead();
            open[u] = true, pos[u] = 0;
        }
        else if (op == 1) r[u]->close(), open[u] = false;
        else if (op == 2) {
            size_t to = vc_range(0, 35, "to");
            vc_check(ll(r[u]->seek(to)) == (ll)to, "seeking returns the position");
            pos[u] = to;
        }
        else if (op == 3) {
            if constexpr (std::is_same<R, PooledHandle>::value) vc_check(r[u]->position() == Offset(pos[u]), "each reader has its own position");
            else { vc_check(r[u]->seekEnd() == (off_t)len, "seeking to the end returns its position"); pos[u] = len; }
        }
        else {
            size_t m = vc_size(20, "asked"), left = pos[u] < len ? len - pos[u] : 0, w = m < left ? m : left;
            std::string b(m, 'x');
            vc_check(r[u]->read(&b[0], m) == (long)w, "reads what was asked for or what is left");
            vc_check(!memcmp(b.data(), content + (w ? pos[u] : 0), w), "each reader gets the bytes at its own position");
            pos[u] += w;
        }
    }
    for (auto* x : r) delete x;
}
#else
template <class R>
static void history() {}
#endif
//@ harness file_history: native
VC_HARNESS(file_history) { history<PooledFile>(); }
//@ harness handle_history: native
VC_HARNESS(handle_history) { history<PooledHandle>(); }
