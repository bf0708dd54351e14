// C14: files, descriptors, pipes, sockets and stream buffers against the contracts of the C library calls they make
//@ tus: io/FileHandle.cc io/FileDescHandle.cc io/RawFileHandle.cc io/PipeHandle.cc io/FDataSync.cc io/HandleBuf.cc io/SockBuf.cc io/StdioBuf.cc io/TCPSocketHandle.cc io/TeeHandle.cc io/DataHandle.cc io/Length.cc io/Offset.cc io/Buffer.cc net/TCPSocket.cc serialisation/Streamable.cc exception/Exceptions.cc thread/Mutex.cc
//@ assume: fopen, stat, fread, fwrite, fflush, fclose, fseeko, ftello, pclose, read, write, lseek, close, fsync do what POSIX says: they transfer at most what is asked for from or to the position, and report a failure
#include "vc.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <sys/stat.h>
#include "eckit/io/FileHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/PipeHandle.h"
#include "eckit/io/FDataSync.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/io/SockBuf.h"
#include "eckit/io/StdioBuf.h"
#include "eckit/io/TCPSocketHandle.h"
#include "eckit/io/TeeHandle.h"
#include "eckit/io/FOpenDataHandle.cc"
#ifdef VC_NATIVE
#include <dlfcn.h>
#include <sys/syscall.h>
#include "eckit/runtime/Main.h"
#endif
using namespace eckit;
typedef unsigned char byte;
typedef long long ll;

// ------------------------------------------------------------------ the device behind FILE* and descriptor
static byte fake[512];
static const int FD = 1234567;
static FILE* const F = (FILE*)fake;
static size_t done;      // bytes transferred
static size_t K;         // one position, followed
static byte at;          // the byte that went to it
static byte* content;    // what is read
static size_t len;
static bool error, ended;   // the last transfer failed; was closed
static int errors;       // failures in a row
static int flushed, synced, closed, dirsynced, zeros;
static unsigned slept;
static bool failFlush, failSync, failClose, failDir, failSeek, regular, sticky;
static long long where;
static void reset() {
    done = 0, at = 0, error = ended = sticky = false, errors = flushed = synced = closed = dirsynced = slept = zeros = 0;
    failFlush = failSync = failClose = failDir = failSeek = false, regular = true, where = 0;
}
// take n of the m bytes at p, for some n up to m
static size_t take(const byte* p, size_t m, bool all) {
    size_t n = all ? m : vc_range(0, m, "taken");
    bool k = (K >= done) & (K < done + n);
    at = vc_ite(k, vc_at(p, vc_ite(k, K - done, 0), k), at);
    done += n;
    return n;
}

static bool giveUp() { return vc_bounded() && slept > 3; }   // (so that a run on concrete inputs ends)
static void plain(bool ok) { vc_check(ok, "the C library is called with the file or descriptor opened, and not after it was closed"); }

extern "C" {
#ifdef VC_NATIVE
#define OTHER(cond, name, ret, types, args) \
    if (!(cond)) return ((ret(*) types)dlsym(RTLD_NEXT, #name)) args;
#else
#define OTHER(cond, name, ret, types, args) plain(cond);
#endif
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
    OTHER(f == F, fwrite, size_t, (const void*, size_t, size_t, FILE*), (p, size, n, f))
    plain(!ended && size == 1);
    size_t t = take((const byte*)p, n, giveUp());
    error = t < n;
    if (error) {
        bool full = vc_bool("disk full");
        errno = full ? ENOSPC : EIO;
    }
    return t;
}
size_t fread(void* p, size_t size, size_t n, FILE* f) {
    OTHER(f == F, fread, size_t, (void*, size_t, size_t, FILE*), (p, size, n, f))
    plain(!ended && size == 1);
    size_t m = vc_ite(n < len - done, n, len - done);
    sticky = vc_bool("read error");
    if (sticky) {
        size_t t = vc_range(0, m, "read before the error");
        vc_assume(t < n);
        m = t;
    }
    memcpy(p, content + done, m);
    done += m;
    return m;
}
int ferror(FILE* f) noexcept {
    OTHER(f == F, ferror, int, (FILE*), (f))
    return sticky;
}
void clearerr(FILE* f) noexcept {
    OTHER(f == F, clearerr, void, (FILE*), (f))
    plain(!ended);
}
unsigned int sleep(unsigned int) {
    slept++;
    return 0;
}
static int stamp;
int fflush(FILE* f) {
    OTHER(f == F, fflush, int, (FILE*), (f))
    plain(!ended);
    if (failFlush) { errno = EIO; return EOF; }
    flushed = ++stamp;
    return 0;
}
int fileno(FILE* f) noexcept {
    OTHER(f == F, fileno, int, (FILE*), (f))
    plain(!ended);
    return FD;
}
int fsync(int fd) {
    if (!vc_symbolic() && fd != FD) {   // the parent directory
        if (failDir) { errno = EIO; return -1; }
        dirsynced = ++stamp;
        return 0;
    }
    plain(fd == FD && !ended);
    unsigned how = vc_split(vc_range(0, 2, "fsync"), 0, 2);
    if (how == 1 && !(vc_bounded() && errors > 3)) { errors = 1 + errors % 8; errno = EINTR; return -1; }
    if (how == 2) { failSync = true; errno = EIO; return -1; }
    synced = ++stamp;
    return 0;
}
int fclose(FILE* f) {
    OTHER(f == F, fclose, int, (FILE*), (f))
    plain(!ended);
    ended = true;
    closed = ++stamp;
    if (failClose) { errno = EIO; return EOF; }
    return 0;
}
int pclose(FILE* f) {
    plain(f == F && !ended);
    ended = true;
    closed = ++stamp;
    return failClose ? (int)vc_irange(-1, 65535, "status") | 1 : 0;
}
static off_t seekTo(off_t o, int whence) {
    if (failSeek) { errno = EINVAL; return -1; }
    where = whence == SEEK_SET ? o : whence == SEEK_CUR ? where + o : (ll)len + o;
    return where;
}
int fseeko(FILE* f, off_t o, int whence) {
    OTHER(f == F, fseeko, int, (FILE*, off_t, int), (f, o, whence))
    plain(!ended);
    return seekTo(o, whence) < 0 ? -1 : 0;
}
off_t ftello(FILE* f) {
    OTHER(f == F, ftello, off_t, (FILE*), (f))
    plain(!ended);
    return where;
}
void rewind(FILE* f) {
    OTHER(f == F, rewind, void, (FILE*), (f))
    plain(!ended);
    where = 0;
}
ssize_t write(int fd, const void* p, size_t n) {
#ifdef VC_NATIVE
    if (fd != FD) return syscall(SYS_write, fd, p, n);
#endif
    plain(fd == FD && !ended);
    error = vc_bool("write error");
    if (error) { errno = EIO; return -1; }
    size_t t = take((const byte*)p, n, giveUp());
    return t;
}
ssize_t read(int fd, void* p, size_t n) {
#ifdef VC_NATIVE
    if (fd != FD) return syscall(SYS_read, fd, p, n);
#endif
    plain(fd == FD && !ended);
    error = vc_bool("read error");
    if (error) { errno = EIO; return -1; }
    size_t m = vc_ite(n < len - done, n, len - done);
    size_t t = vc_range(0, m, "read");
    vc_assume(t > 0 || m == 0);
    memcpy(p, content + done, t);
    done += t;
    return t;
}
off_t lseek(int fd, off_t o, int whence) noexcept {
#ifdef VC_NATIVE
    if (fd != FD) return syscall(SYS_lseek, fd, o, whence);
#endif
    plain(fd == FD && !ended);
    return seekTo(o, whence);
}
int close(int fd) {
#ifdef VC_NATIVE
    if (fd != FD) return syscall(SYS_close, fd);
#endif
    plain(fd == FD && !ended);
    ended = true;
    closed = ++stamp;
    if (failClose) { errno = EIO; return -1; }
    return 0;
}
int fstat(int fd, struct stat* st) noexcept {
#ifdef VC_NATIVE
    if (fd != FD) return syscall(SYS_fstat, fd, st);
#endif
    plain(fd == FD && !ended);
    st->st_mode = regular ? S_IFREG | 0644 : S_IFIFO | 0600;
    st->st_size = len;
    return 0;
}
static const char NAME[] = "/tmp/x";
static const char* mode_;   // how the file was opened
static bool failOpen, there;
static int opens;
static bool same(const char* a, const char* b) {
    while (*a && *a == *b) a++, b++;
    return *a == *b;
}
#ifndef VC_NATIVE
int strcmp(const char* a, const char* b) noexcept {
    while (*a && *a == *b) a++, b++;
    return (int)(byte)*a - (int)(byte)*b;
}
#endif
FILE* fopen(const char* name, const char* mode) {
    OTHER(same(name, NAME), fopen, FILE*, (const char*, const char*), (name, mode))
    opens++;
    if (failOpen) { errno = EACCES; return nullptr; }
    mode_ = mode;
    ended = false;
    return F;
}
void setbuf(FILE* f, char* b) noexcept {
    OTHER(f == F, setbuf, void, (FILE*, char*), (f, b))
    plain(!ended && !b);
}
int stat(const char* name, struct stat* st) noexcept {
    OTHER(same(name, NAME), stat, int, (const char*, struct stat*), (name, st))
    if (!there) { errno = ENOENT; return -1; }
    st->st_mode = S_IFREG | 0644;
    st->st_size = len;
    return 0;
}
#ifdef VC_NATIVE
int access(const char* name, int how) noexcept {
    OTHER(same(name, NAME), access, int, (const char*, int), (name, how))
    return there ? 0 : -1;
}
#endif
}
static void p_ctor(PathName*, const std::string&, bool) {}
static void p_dtor(PathName*) {}
static void p_sync(const PathName*) {
    if (failDir) throw std::exception();
    dirsynced = ++stamp;
}
static bool p_exists(const PathName*) { return there; }
static Length p_size(const PathName*) { return Length(len); }
static void r_ctor(void*, void*, const std::string&) {}
static void r_any(void*) {}
static void library() {
#ifdef VC_NATIVE
    static char name[] = "vc", *args[] = {name, nullptr};
    if (!Main::ready()) Main::initialise(1, args);
#endif
    done = 0, at = 0, error = ended = sticky = false, errors = flushed = synced = closed = dirsynced = slept = stamp = 0;
    failFlush = failSync = failClose = failDir = failSeek = false, regular = true, where = 0;
    vc_option("intlift", 1);
    vc_replace("eckit::PathName::PathName(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, bool)", (void*)p_ctor);
    vc_replace("eckit::PathName::~PathName", (void*)p_dtor);
    vc_replace("eckit::PathName::syncParentDirectory", (void*)p_sync);
    vc_replace("eckit::ResourceBase::ResourceBase", (void*)r_ctor);
    vc_replace("eckit::ResourceBase::~ResourceBase", (void*)r_any);
    vc_replace("eckit::ResourceBase::init", (void*)r_any);
}
static byte *buf0;
static size_t L0;
static void given(size_t small) {
    L0 = vc_size(small, "length");
    buf0 = vc_bytes(L0, "data");
    K = vc_size(small, "k");
    vc_assume(K < L0 || L0 == 0);
}
static void device(size_t small) {
    len = vc_size(small, "content length");
    content = vc_bytes(len, "content");
}
static bool sofar() { return vc_imp(K < done, at == vc_at(buf0, K, K < done)); }   // what was taken is what was given
// ------------------------------------------------------------------ files
static bool inv_fwrite(FileHandle*& self, const void*& buffer, long& length, long& written, long& len) {
    return (self->file_ == F) & !ended & (size_t(written) == done) & (done <= L0) & (len >= 0) & (len <= length) & ((const byte*)buffer + len == buf0 + done) & (size_t(length) - size_t(len) == L0 - done) &
           sofar();
}
VC_HARNESS(file_write) {
    library();
    vc_loop("eckit::FileHandle::write", 0, (void*)inv_fwrite);
    given(20);
    FileHandle& h = *new FileHandle("/tmp/x", false);
    h.file_ = F;
    long n = h.write(buf0, L0);
    vc_check(n == (long)done, "the number reported written is the number written");
    vc_check(n == (long)L0 || error, "everything is written unless there is an error");
    vc_check(n == (long)L0 || errno != ENOSPC, "a full disk is waited for");
    if (L0) vc_check(sofar(), "the bytes written are those given, in order");
}
VC_HARNESS(file_read) {
    library();
    given(20), device(30);
    done = vc_size(30, "position");
    vc_assume(done <= len);
    size_t d0 = done;
    FileHandle& h = *new FileHandle("/tmp/x", false);
    PipeHandle& p = *new PipeHandle("x");
    h.file_ = F, p.file_ = F, h.read_ = p.read_ = true;
    bool pipe = vc_bool("pipe");
    long n = 0;
    bool refused = VC_THROWS(n = pipe ? p.read(buf0, L0) : h.read(buf0, L0));
    vc_check(refused == sticky, "a read error is reported");
    if (refused) return;
    vc_check(n == (long)(done - d0) && (n == (long)L0 || done == len), "reads what was asked for or what is left");
    if (K < (size_t)n) vc_check(buf0[K] == content[d0 + K], "the bytes are those of the file");
}
static bool inv_fsync(int& fd, int& ret) {
    return (fd == FD) & !ended & (flushed == 1) & (closed == 0) & (dirsynced == 0) & (((ret == 0) & (synced == 2) & (stamp == 2) & !failSync) | ((ret == -1) & (synced == 0) & (stamp == 1))) &
           vc_imp(failSync, *__errno_location() == EIO) & vc_imp(!failSync & (ret != 0), *__errno_location() == EINTR);
}
VC_HARNESS(file_close) {
    library();
    vc_loop("eckit::fsync", 0, (void*)inv_fsync);
    FileHandle& h = *new FileHandle("/tmp/x", false);
    h.file_ = F;
    h.read_ = vc_bool("read");
    failFlush = vc_bool("flush fails"), failDir = vc_bool("directory fails"), failClose = vc_bool("close fails"), regular = vc_bool("regular");
    bool close = vc_bool("close");
    bool refused = VC_THROWS(close ? h.close() : h.flush());
    bool bad = (!h.read_ && (failFlush || failSync || failDir)) || (close && failClose);
    vc_check(refused || !bad, "an error when flushing or closing is reported");
    vc_check(bad || !refused, "nothing is reported when there was no error");
    if (!refused && !h.read_) {
        vc_check(flushed > 0 && (!regular || synced > flushed), "what was written reaches the disk");
        vc_check(!regular || dirsynced > synced, "the directory is synchronised too");
        vc_check(!close || closed > dirsynced, "the file is closed after that");
    }
    if (!refused) vc_check((closed > 0) == close && (h.file_ == nullptr) == close, "closing closes, flushing does not");
    vc_check(h.file_ == (ended ? nullptr : F), "a closed file is not kept");
    int c = closed;
    if (ended) {
        vc_check(!VC_THROWS(h.close()) && closed == c, "closing again does nothing");
        vc_check(!VC_THROWS(h.flush()), "flushing a closed file does nothing");
    }
}
VC_HARNESS(file_open) {
    library();
    vc_loop("eckit::fsync", 0, (void*)inv_fsync);
    vc_replace("eckit::PathName::exists", (void*)p_exists);
    vc_replace("eckit::PathName::size() const", (void*)p_size);
    FileHandle& h = *new FileHandle(NAME, vc_bool("overwrite"));
    h.read_ = vc_bool("opened for read before");
    failOpen = vc_bool("open fails"), there = vc_bool("there"), len = vc_range(0, 1ull << 50, "size");
    opens = 0, mode_ = nullptr;
    ll n = vc_range(0, 1ull << 50, "to be written");
    unsigned how = vc_split(vc_range(0, 2, "for"), 0, 2);
    if (how == 0) {
        Length l;
        bool refused = VC_THROWS(l = h.openForRead());
        vc_check(refused == (failOpen || !there), "a file that cannot be opened is reported");
        if (!refused) vc_check(same(mode_, "r") && l == Length(len), "opening for read gives the size of the file and leaves it alone");
    }
    else if (how == 1) {
        bool refused = VC_THROWS(h.openForWrite(n)), keep = h.overwrite_ && there;
        vc_check(refused == (failOpen || (keep && n != ll(len))), "a file that cannot be opened, or does not have the space reserved, is reported");
        if (!refused) vc_check(same(mode_, keep ? "r+" : "w"), "a file is emptied when opened for write, one with space reserved is not");
        if (refused) vc_check(!mode_, "what is refused is not opened");
    }
    else {
        bool refused = VC_THROWS(h.openForAppend(n));
        vc_check(refused == failOpen, "a file that cannot be opened is reported");
        if (!refused) vc_check(same(mode_, "a"), "what is appended follows what is there");
    }
    vc_check(h.file_ == (mode_ ? F : nullptr), "what was opened is used");
    if (h.file_ && how) {
        bool refused = VC_THROWS(h.close());
        vc_check(refused == failSync, "an error of the disk is reported");
        vc_check(refused || (synced > flushed && flushed > 0 && dirsynced > synced && closed > dirsynced), "what was written reaches the disk, however the handle was used before");
    }
}
VC_HARNESS(file_seek) {
    library();
    FileHandle& h = *new FileHandle("/tmp/x", false);
    h.file_ = F;
    h.read_ = vc_bool("read");
    where = vc_range(0, 1ull << 50, "position");
    ll w0 = where;
    ll to = vc_range(0, 1ull << 50, "to");
    failSeek = vc_bool("seek fails");
    bool refused = false;
    ll want = to;
    switch (vc_split(vc_range(0, 5, "op"), 0, 5)) {
        case 0: { Offset o; refused = VC_THROWS(o = h.seek(to)); if (!refused) vc_check(o == Offset(to), "seeking returns the position"); break; }
        case 1: refused = VC_THROWS(h.skip(to)); want = w0 + to; break;
        case 2: refused = VC_THROWS(h.advance(to)); want = w0 + to; break;
        case 3: if (h.read_) { refused = VC_THROWS(h.restartReadFrom(to)); break; } failSeek = true; refused = VC_THROWS(h.restartReadFrom(to)); break;
        case 4: if (!h.read_) { refused = VC_THROWS(h.restartWriteFrom(to)); break; } failSeek = true; refused = VC_THROWS(h.restartWriteFrom(to)); break;
        default: h.rewind(); want = 0; failSeek = false;
    }
    vc_check(refused == failSeek, "a failed move is reported");
    vc_check(where == (refused ? w0 : want) && h.position() == Offset(where), "the file is at the position asked for");
}
// ------------------------------------------------------------------ descriptors
template <class H>
static void transfer(H& h, bool throws) {
    given(20), device(30);
    done = vc_size(30, "position");
    size_t d0 = done;
    long n = 0;
    if (vc_bool("write")) {
        K += d0;
        bool refused = VC_THROWS(n = h.write(buf0, L0));
        vc_check(error == (throws ? refused : n == -1), "an error is reported");
        if (error) return;
        vc_check(n == (long)(done - d0), "the number reported written is the number written");
        if (L0 && K < done) vc_check(at == buf0[K - d0], "the bytes written are those given, in order");
        return;
    }
    vc_assume(done <= len);
    bool refused = VC_THROWS(n = h.read(buf0, L0));
    vc_check(error == (throws ? refused : n == -1), "an error is reported");
    if (error) return;
    vc_check(n == (long)(done - d0), "the number reported read is the number read");
    if (K < (size_t)n) vc_check(buf0[K] == content[d0 + K], "the bytes are those of the file");
}
template <class H>
static void moves(H& h) {
    where = vc_range(0, 1ull << 50, "position");
    ll w0 = where, to = vc_range(0, 1ull << 50, "to"), want = to;
    failSeek = vc_bool("seek fails");
    bool refused;
    Offset o = 0;
    switch (vc_split(vc_range(0, 2, "op"), 0, 2)) {
        case 0: refused = VC_THROWS(o = h.seek(to)); if (!refused) vc_check(o == Offset(to), "seeking returns the position"); break;
        case 1: refused = VC_THROWS(h.skip(to)); want = w0 + to; break;
        default: refused = VC_THROWS(o = h.position()); if (!refused) vc_check(o == Offset(w0), "the position is that of the descriptor"); want = w0;
    }
    vc_check(refused == failSeek, "a failed move is reported");
    vc_check(where == (refused ? w0 : want), "the file is at the position asked for");
}
VC_HARNESS(descriptor) {
    library();
    FileDescHandle& h = *new FileDescHandle(FD, true);
    transfer(h, false);
}
VC_HARNESS(raw) {
    library();
    RawFileHandle& h = *new RawFileHandle("/tmp/x", false);
    h.fd_ = FD;
    transfer(h, true);
}
VC_HARNESS(descriptor_moves) {
    library();
    device(30);
    FileDescHandle& h = *new FileDescHandle(FD, vc_bool("owner"));
    moves(h);
    failClose = vc_bool("close fails");
    bool refused = VC_THROWS(h.close());
    vc_check(refused == (h.close_ && failClose) && ended == h.close_, "the descriptor is closed if it is owned, an error is reported");
}
VC_HARNESS(raw_moves) {
    library();
    device(30);
    RawFileHandle& h = *new RawFileHandle("/tmp/x", false);
    h.fd_ = FD;
    vc_check(h.size() == Length(len) && h.estimate() == Length(len), "the size is that of the file");
    moves(h);
    failClose = vc_bool("close fails");
    bool refused = VC_THROWS(h.close());
    vc_check(refused == failClose && ended, "the descriptor is closed, an error is reported");
}
VC_HARNESS(pipe_close) {
    library();
    PipeHandle& h = *new PipeHandle("x");
    h.file_ = F;
    failClose = vc_bool("close fails");
    vc_check(VC_THROWS(h.close()) == failClose && ended, "the pipe is closed, an error or a failed command is reported");
    int c = closed;
    vc_check(!VC_THROWS(h.close()) && closed == c, "closing again does nothing");
}
VC_HARNESS(pipe_write) {
    library();
    given(20);
    PipeHandle& h = *new PipeHandle("x");
    h.file_ = F;
    long n = h.write(buf0, L0);
    vc_check(n == (long)done && (n == (long)L0 || error), "the number reported written is the number written");
    if (L0) vc_check(sofar(), "the bytes written are those given, in order");
}
// ------------------------------------------------------------------ sockets
using eckit::net::TCPSocket;
static TCPSocket& socketOpen() {
    TCPSocket& s = *new TCPSocket;
    s.socket_ = FD;
    return s;
}
static bool inv_swrite(const TCPSocket*& self, const void*& buf, long& sent, const char*& p, long& length) {
    return (self->socket_ == FD) & !ended & !self->debug_.on & !error & (length >= 0) & (size_t(sent) == done) & (done <= L0) & ((const byte*)buf == buf0) & ((const byte*)p == buf0 + done) & (size_t(length) == L0 - done) & sofar();
}
static bool inv_szero(const TCPSocket*& self, const void*& buf, long& sent, const char*& p, long& length, long& len, size_t& retries) {
    return (self->socket_ == FD) & !ended & !self->debug_.on & (length > 0) & (len >= -1) & (len <= length) & (error == (len == -1)) & (size_t(sent) + vc_ite(len > 0, len, 0) == done) & (done <= L0) &
           ((const byte*)buf == buf0) & ((const byte*)p == buf0 + sent) & (size_t(length) == L0 - size_t(sent)) & (sent >= 0) & (retries < 600) & sofar();
}
VC_HARNESS(socket_write) {
    library();
    vc_loop("eckit::net::TCPSocket::write", 1, (void*)inv_swrite);
    vc_loop("eckit::net::TCPSocket::write", 2, (void*)inv_szero);
    given(20);
    TCPSocket& s = socketOpen();
    unsigned z = slept;
    long n = s.write(buf0, L0);
    vc_check(n == (error ? -1 : (long)done), "the number reported written is the number written, an error is reported");
    vc_check(error || n == (long)L0 || slept - z >= 599 || vc_symbolic(), "everything is written as long as the socket takes something");
    if (L0) vc_check(sofar(), "the bytes written are those given, in order");
}
static size_t start;
static byte was;
static bool inv_sread(const TCPSocket*& self, void*& buf, long& received, char*& p, long& length) {
    size_t d = done - start;
    return (self->socket_ == FD) & !ended & !self->debug_.on & !error & (length >= 0) & (size_t(received) == d) & (done >= start) & (done <= len) & (d <= L0) & ((byte*)buf == buf0) & ((byte*)p == buf0 + d) & (size_t(length) == L0 - d) &
           (vc_at(buf0, K, K < L0) == vc_ite(K < d, vc_at(content, vc_ite(K < d, start + K, 0), K < d), was));
}
VC_HARNESS(socket_read) {
    library();
    vc_loop("eckit::net::TCPSocket::read", 0, (void*)inv_sread);
    given(20), device(30);
    start = done = vc_size(30, "position");
    vc_assume(done <= len);
    was = L0 ? buf0[K] : 0;
    TCPSocket& s = socketOpen();
    long n = s.read(buf0, L0);
    vc_check(error == (n == -1), "an error is reported");
    if (error) return;
    vc_check(n == (long)(done - start) && (n == (long)L0 || done == len), "reads what was asked for or what is left");
    if (K < (size_t)n) vc_check(buf0[K] == content[start + K], "the bytes are those received, in order");
}
// contracts of TCPSocket::read and write (socket_read, socket_write above)
static long c_read(const TCPSocket*, void* p, long n) {
    plain(!ended && n >= 0);
    if (n == 0) return 0;
    error = vc_bool("read error");
    if (error) return -1;
    size_t m = vc_ite(size_t(n) < len - done, n, len - done);
    memcpy(p, content + done, m);
    done += m;
    return m;
}
static long c_write(const TCPSocket*, const void* p, long n) {
    plain(!ended && n >= 0);
    error = vc_bool("write error");
    if (error) return -1;
    size_t t = take((const byte*)p, n, giveUp());
    if (n && t < size_t(n)) error = true;   // (gave up)
    return t;
}
static void sockets() {
    vc_replace("eckit::net::TCPSocket::read", (void*)c_read);
    vc_replace("eckit::net::TCPSocket::write", (void*)c_write);
}
static bool inv_skip(InstantTCPSocketHandle*& self, const Offset*& o) { return !ended & !error & (ll(self->position_) == (ll)done) & (done <= len) & (done <= start) & (ll(*o) == ll(start)); }
VC_HARNESS(socket_handle) {
    library();
    sockets();
    vc_loop("eckit::InstantTCPSocketHandle::seek", 0, (void*)inv_skip);
    given(20), device(30);
    TCPSocket& s = socketOpen();
    InstantTCPSocketHandle& h = *new InstantTCPSocketHandle(s);
    done = vc_size(30, "position");
    size_t d0 = done;
    h.position_ = done;
    switch (vc_split(vc_range(0, 2, "op"), 0, 2)) {
        case 0: {
            vc_assume(done <= len);
            long n = h.read(buf0, L0);
            vc_check(error == (n == -1) && (error || n == (long)(done - d0)), "the number reported read is the number read, an error is reported");
            break;
        }
        case 1: {
            long n = h.write(buf0, L0);
            vc_check(n == (long)(done - d0) || (error && n == -1), "the number reported written is the number written, an error is reported");
            break;
        }
        default: {
            vc_assume(done <= len);
            start = vc_size(40, "to");
            h.read_ = true;
            bool refused = VC_THROWS(h.seek(start));
            vc_check(refused == (start < d0 || error || done < start), "a position that cannot be reached is refused");
            if (!refused) vc_check(done == start, "seeking forward skips that much");
        }
    }
    vc_check(ll(h.position_) == (ll)done || error, "the position is the number of bytes transferred");
}
// ------------------------------------------------------------------ stream buffers
// K is now a position in the sequence of all bytes put into the buffer since it was created
struct Device : DataHandle {
    void print(std::ostream&) const override {}
    long read(void* p, long n) override { return c_read(nullptr, p, n); }
    long write(const void* p, long n) override {
        error = vc_bool("write error");
        if (error) return -1;
        size_t t = take((const byte*)p, n, giveUp());
        error = t < size_t(n);
        return t;
    }
};
static byte want;   // the byte put at K
template <class B>
static void pending(B& b) {   // any number of bytes waiting
    size_t n = vc_range(0, 80, "waiting");
    byte* w = vc_bytes(80, "waiting bytes");
    memcpy(b.out_, w, 80);
    b.setp(b.out_, b.out_ + 80);
    b.pbump(n);
    done = vc_range(0, 100, "written before");
    K = vc_range(0, 300, "k");
    at = want = vc_u8("byte");
    size_t i = K - done;
    if (i < n) want = w[i];
}
template <class B>
static void keeps(B& b, size_t all) {   // the byte at K went to the device or is still waiting
    size_t n = b.pptr() - b.pbase();
    vc_check(b.pbase() == b.out_ && b.epptr() == b.out_ + 80 && n <= 80, "the buffer is in order");
    vc_check(done + n == all, "every byte is either written or waiting");
    size_t i = K - done;
    if (K < done) vc_check(at == want, "the bytes written are those put in, in order and once");
    else if (i < n) vc_check((byte)b.out_[i] == want, "the bytes not written are still waiting");
}
template <class B>
static void buffering(B& b, bool throws, bool* connected = nullptr) {
    pending(b);
    size_t all = done + (b.pptr() - b.pbase()), n0 = all - done;
    bool stop = false;
    int r = 0;
    error = false;
    if (vc_bool("sync")) {
        bool refused = VC_THROWS(r = b.sync());
        vc_check((refused || r != 0) == error, "an incomplete write is reported");
        if (connected && error) return;
        keeps(b, all);
        if (!error) vc_check(done == all, "synchronising writes everything");
        return;
    }
    int c = vc_irange(-1, 255, "character");
    bool refused = VC_THROWS(r = b.overflow(c));
    vc_check((refused || r == EOF) == error, "an incomplete write is reported");
    if (error) {
        if (!connected) keeps(b, all);
        return;
    }
    if (c != EOF && K == all) want = c;
    keeps(b, c == EOF ? all : all + 1);
}
template <class B>
static void underflowing(B& b, bool throws) {
    device(30);
    done = vc_size(30, "position");
    vc_assume(done <= len);
    size_t d0 = done;
    bool have = vc_bool("a byte is there");
    byte c = vc_u8("byte");
    b.in_[0] = c;
    b.setg(b.in_, b.in_ + (have ? 0 : 1), b.in_ + 1);
    int r = 0;
    error = false;
    bool refused = VC_THROWS(r = b.underflow());
    if (have) vc_check(!refused && r == c && done == d0, "a byte that is there is shown");
    else if (!error && d0 < len && !sticky) vc_check(!refused && r == content[d0] && done == d0 + 1 && b.gptr() == b.in_ && b.egptr() == b.in_ + 1, "the next byte is read");
    else vc_check(refused || r == EOF, "the end of the data is reported");
}
VC_HARNESS(handle_buffer) {
    library();
    Device& d = *new Device;
    bool throws = vc_bool("throw on error");
    HandleBuf& b = *new HandleBuf(d, throws);
    buffering(b, throws);
}
VC_HARNESS(handle_buffer_in) {
    library();
    Device& d = *new Device;
    bool throws = vc_bool("throw on error");
    HandleBuf& b = *new HandleBuf(d, throws);
    underflowing(b, throws);
}
VC_HARNESS(stdio_buffer) {
    library();
    StdioBuf& b = *new StdioBuf(F);
    buffering(b, false);
}
VC_HARNESS(stdio_buffer_in) {
    library();
    StdioBuf& b = *new StdioBuf(F);
    underflowing(b, false);
}
VC_HARNESS(socket_buffer) {
    library();
    sockets();
    bool connected = true;
    SockBuf& b = *new SockBuf(socketOpen());
    buffering(b, false, &connected);
    if (error) vc_check(ended && !b.protocol_.isConnected(), "a connection that fails is closed");
}
VC_HARNESS(socket_buffer_in) {
    library();
    sockets();
    SockBuf& b = *new SockBuf(socketOpen());
    underflowing(b, false);
}
// ------------------------------------------------------------------ copies of a stream of bytes
struct Sink : DataHandle {
    size_t k, pos = 0;
    byte got = 0;
    long most;
    int opened = 0, flushes = 0;
    void print(std::ostream&) const override {}
    void openForWrite(const Length&) override { opened++; }
    void close() override { opened--; }
    void flush() override { flushes++; }
    long write(const void* p, long n) override {
        long m = vc_ite(n < most, n, most);
        bool in = (k >= pos) & (k < pos + m);
        got = vc_ite(in, vc_at(p, vc_ite(in, k - pos, 0), in), got);
        pos += m;
        return m;
    }
};
VC_HARNESS(tee) {
    library();
    given(20);
    size_t n = vc_split(vc_range(1, 3, "handles"), 1, 3);
    TeeHandle& t = *new TeeHandle;
    Sink* s[3];
    bool same = true;
    for (size_t i = 0; i < n; i++) {
        s[i] = new Sink;
        s[i]->k = K;
        s[i]->most = vc_size(30, "most");
        same = same && vc_ite(s[i]->most < (long)L0, s[i]->most, L0) == vc_ite(s[0]->most < (long)L0, s[0]->most, L0);
        t += s[i];
    }
    t.openForWrite(0);
    long r = 0;
    bool refused = VC_THROWS(r = t.write(buf0, L0));
    vc_check(refused == !same, "copies that come out different are reported");
    if (!refused)
        for (size_t i = 0; i < n; i++) {
            vc_check(s[i]->pos == (size_t)r, "every handle gets the bytes reported written");
            if (K < (size_t)r) vc_check(s[i]->got == buf0[K], "every handle gets the bytes given");
        }
    t.flush();
    t.close();
    for (size_t i = 0; i < n; i++) vc_check(s[i]->opened == 0 && s[i]->flushes == 1, "every handle is flushed and closed");
}
// ------------------------------------------------------------------ a handle used as FILE*
struct Tape : DataHandle {
    size_t pos = 0;
    int closes = 0, deleted = 0;
    bool failing = false;
    static int deletes;
    ~Tape() override { deletes++; }
    void print(std::ostream&) const override {}
    Length openForRead() override { pos = 0; return len; }
    void close() override {
        closes++;
        if (failClose) throw std::exception();
    }
    Length size() override { return len; }
    Offset position() override { return pos; }
    bool canSeek() const override { return true; }
    Offset seek(const Offset& o) override {
        if (failing || ll(o) < 0 || ll(o) > ll(len)) throw std::exception();
        pos = ll(o);
        return o;
    }
    long read(void* p, long n) override {
        if (failing) throw std::exception();
        size_t m = vc_ite(size_t(n) < len - pos, n, len - pos);
        memcpy(p, content + pos, m);
        pos += m;
        return m;
    }
    long write(const void* p, long n) override {
        if (failing) throw std::exception();
        done = pos;
        size_t m = take((const byte*)p, n, false);
        pos += m;
        return m;
    }
};
int Tape::deletes = 0;
VC_HARNESS(as_file) {
    library();
    given(20), device(30);
    Tape& t = *new Tape;
    FOpenDataHandle& f = *new FOpenDataHandle(&t, "r+", false, false);
    size_t d0 = vc_size(30, "position");
    vc_assume(d0 <= len);
    t.pos = f.position_ = d0;   // the position is always known
    t.failing = vc_bool("handle fails");
    unsigned op = vc_split(vc_range(0, 4, "op"), 0, 4);
    if (op == 0) {
        ssize_t n = readfn(&f, (char*)buf0, L0);
        size_t m = L0 < len - d0 ? L0 : len - d0;
        vc_check(n == (t.failing ? -1 : ssize_t(m)), "reads what was asked for or what is left, an error is reported");
        if (!t.failing && K < m) vc_check(buf0[K] == content[d0 + K], "the bytes are those of the handle");
    }
    else if (op == 1) {
        size_t k = K;
        K += d0;
        ssize_t n = writefn(&f, (const char*)buf0, L0);
        vc_check(n == ssize_t(t.pos - d0) && (!t.failing || n == 0), "the number reported written is the number written");
        if (k < (size_t)n) vc_check(at == buf0[k], "the bytes written are those given, in order");
    }
    else {
        off_t by = vc_irange(-(1ll << 41), 1ll << 41, "by"), o = by;
        if (vc_bounded()) vc_assume(by >= -40 && by <= 40);
        int whence = op == 2 ? SEEK_SET : op == 3 ? SEEK_CUR : SEEK_END;
        ll to = by + (op == 2 ? 0 : op == 3 ? ll(d0) : ll(len));
        int r = seekfn(&f, &o, whence);
        bool fits = to == ll(d0) || (!t.failing && to >= 0 && to <= ll(len));
        vc_check(r == (fits ? 0 : -1), "a position that cannot be reached is refused");
        if (!r) vc_check(o == to && t.pos == size_t(to), "the handle is at the position asked for");
        else vc_check(t.pos == d0, "a refused move changes nothing");
    }
    vc_check(f.position_ == (off_t)t.pos, "the position is that of the handle");
}
VC_HARNESS(as_file_close) {
    library();
    device(30);
    Tape& t = *new Tape;
    Tape::deletes = 0;
    bool open = vc_bool("open and close"), drop = vc_bool("delete on close");
    FOpenDataHandle& f = *new FOpenDataHandle(&t, "r", drop, false);
    f.open_close_ = open;
    failClose = vc_bool("close fails");
    int r = closefn(&f);
    vc_check((r == 0) == !(open && failClose), "an error when closing is reported");
    vc_check(Tape::deletes == (drop ? 1 : 0), "the handle is deleted if asked for");
    if (!drop) vc_check(t.closes == (open ? 1 : 0), "the handle is closed once if it was opened");
}
