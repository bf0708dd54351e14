// C11: CacheLRU
//@ tus: exception/Exceptions.cc thread/Mutex.cc
//@ assume: std::list and std::map behave as the C++ standard says (modelled as ordered sets of keys)
#include "vc.h"
#include <list>
#include <map>
#include <vector>
#include "eckit/container/CacheLRU.h"
using namespace eckit;
typedef unsigned long u64;
typedef CacheLRU<u64, u64> Cache;
typedef Cache::Entry Entry;
typedef Cache::storage_type List;
typedef Cache::map_type Map;
typedef List::iterator LIter;
typedef Map::iterator MIter;
typedef std::pair<const u64, LIter> Pair;

// ghost: the list is a set of keys, most recent first (larger stamp); the map the keys it holds, each mapped to its node in the
// list (at most one node for a key: every push checks it).  Looked at: two arbitrary keys Q and R, and one other key at each end
struct Slot {
    std::_List_node<Entry> n;
    u64 in, map, stamp;
    Entry& e() { return *n._M_valptr(); }
};
static Slot s[5];                // Q, R, the one at the back, the one at the front (when neither Q nor R), the end
enum { QS, RS, BS, FS, END, NONE };
static u64 nL, nM, clk;          // sizes, latest stamp
static unsigned front_, back_;   // slots at the ends, NONE when not looked at yet
static u64 Q, R, purgedQ, purgeValQ, purgedAll;
static Pair* slot;               // what map[key] gave out last
static u64 keyOf(unsigned i) { return s[i].e().key_; }
static unsigned slotOf(const void* n) {
    if (n == &s[0].n) return 0;
    if (n == &s[1].n) return 1;
    if (n == &s[2].n) return 2;
    if (n == &s[3].n) return 3;
    vc_check(n == &s[4].n, "iterators belong to the list");
    return 4;
}
static unsigned find(u64 k) {   // the slot of a key
    if (k == Q) return QS;
    if (k == R) return RS;
    if (back_ == BS && k == keyOf(BS)) return BS;
    vc_check(front_ == FS && k == keyOf(FS), "only keys of the operation or the ends are looked up");
    return FS;
}
static void other(unsigned i) {   // some key that is in the cache, neither Q nor R
    u64 k = vc_ghost_u64();
    vc_assume((k != Q) & (k != R));
    s[i].e().key_ = k;
    s[i].e().value_ = vc_ghost_u64();
    s[i].in = s[i].map = 1;
    s[i].stamp = vc_ghost_u64();
    vc_assume((s[i].stamp <= clk) & (s[QS].in + s[RS].in + 1 <= nL));
}
static void order(unsigned i, bool newest) {
    vc_assume(s[i].in == 1);
    for (unsigned t = 0; t < 2; t++)
        if (t != i) vc_assume(vc_imp(s[t].in != 0, newest ? s[i].stamp > s[t].stamp : s[i].stamp < s[t].stamp));
}
static unsigned theFront() {
    if (front_ == NONE) {
        unsigned i = vc_split(vc_ghost_u64() & 3, 0, 3);
        vc_assume(i != BS);
        if (nL == 1 && back_ != NONE) vc_assume(i == back_);
        if (i == FS) other(FS);
        order(i, true);
        if (back_ != NONE) vc_assume(((nL == 1) == (i == back_)) & vc_imp((i == FS) & (back_ == BS), keyOf(FS) != keyOf(BS)));
        front_ = i;
    }
    return front_;
}
static unsigned theBack() {
    if (back_ == NONE) {
        unsigned i;
        if (nL == 1 && front_ != NONE) i = front_;
        else {
            i = vc_split(vc_ghost_u64() & 3, 0, 3);
            vc_assume(i != FS);
            if (i == BS) other(BS);
            order(i, false);
            if (front_ != NONE) vc_assume((i != front_) & vc_imp((i == BS) & (front_ == FS), keyOf(FS) != keyOf(BS)));
        }
        back_ = i;
    }
    return back_;
}
static LIter iter(unsigned i) { LIter t; t._M_node = &s[i].n; return t; }
static LIter l_begin(List*) { return nL ? iter(theFront()) : iter(END); }
static LIter l_end(List*) { return iter(END); }
static size_t l_size(const List*) { return nL; }
static bool l_empty(const List*) { return nL == 0; }
static Entry& l_front(List*) { vc_check(nL > 0, "an empty list has no front"); return s[theFront()].e(); }
static Entry& l_back(List*) { vc_check(nL > 0, "an empty list has no back"); return s[theBack()].e(); }
static void l_push(List*, const Entry& e) {
    u64 k = e.key_, v = e.value_;
    unsigned i = k == Q ? QS : k == R ? RS : FS;
    if (i == FS) vc_assume(s[QS].in + s[RS].in <= nL);   // any other key
    else vc_check(s[i].in == 0, "a key is in the list at most once");
    s[i].e().key_ = k;
    s[i].e().value_ = v;
    s[i].in = 1;
    if (i == FS) s[i].map = 0;
    s[i].stamp = ++clk;
    front_ = i;
    nL++;
}
static void drop(unsigned i) {
    vc_check(i < END && s[i].in == 1, "only what is in the list is erased");
    s[i].in = 0;
    nL--;
    if (i == front_) front_ = NONE;
    if (i == back_) back_ = NONE;
}
static LIter l_erase(List*, List::const_iterator i) { drop(slotOf(i._M_node)); return iter(END); }
static void l_pop(List*) {
    vc_check(nL > 0, "nothing is taken from an empty list");
    unsigned b = theBack();
    vc_check(s[b].map == 0, "what leaves the list has left the map");
    drop(b);
}
static void l_splice(List*, List::const_iterator to, List&, List::const_iterator i) {
    unsigned k = slotOf(i._M_node);
    vc_check(k < END && s[k].in == 1 && slotOf(to._M_node) == theFront(), "a list element moves to the front");
    s[k].stamp = ++clk;
    front_ = k;
    if (back_ == k && nL > 1) back_ = NONE;
}
static void l_clear(List*) { nL = s[QS].in = s[RS].in = 0; front_ = back_ = NONE; }
static void l_end_of_life(List*) {}
static Entry& i_star(const LIter* i) { unsigned k = slotOf(i->_M_node); vc_check(k < END && s[k].in == 1, "only entries of the list are looked at"); return s[k].e(); }
static Entry* i_arrow(const LIter* i) { return &i_star(i); }
static LIter& i_next(LIter* it) {   // the next older entry
    unsigned k = slotOf(it->_M_node), i = vc_split(vc_ghost_u64() & 7, 0, 7);
    vc_check(k < END && s[k].in == 1, "iteration stays inside the list");
    u64 t = s[k].stamp;
    vc_assume(i == QS || i == RS || i == BS || i == END);
    if (i == BS) other(BS);
    for (unsigned q = 0; q < 2; q++)   // nothing lies between
        vc_assume(vc_imp(s[q].in != 0, (s[q].stamp >= t) | ((i != END) & vc_imp(i != q, s[q].stamp < s[i].stamp))));
    if (i != END) vc_assume((s[i].in == 1) & (s[i].stamp < t));
    *it = iter(i);
    return *it;
}
static MIter m_iter(unsigned k) {
    auto* t = (std::_Rb_tree_node<Pair>*)new char[sizeof(std::_Rb_tree_node<Pair>)];
    new (t->_M_valptr()) Pair(keyOf(k), iter(k));
    MIter i;
    i._M_node = t;
    return i;
}
static std::_Rb_tree_node_base mEnd;
static MIter m_endIter() { MIter i; i._M_node = &mEnd; return i; }
static MIter m_find(Map*, const u64& k) {
    if (k != Q && k != R) return m_endIter();   // (the harnesses ask for other keys only when they are not there)
    unsigned i = find(k);
    return s[i].map ? m_iter(i) : m_endIter();
}
static Map::const_iterator m_findc(const Map* m, const u64& k) { return m_find(nullptr, k); }
static MIter m_end(Map*) { return m_endIter(); }
static Map::const_iterator m_endc(const Map*) { return m_endIter(); }
static LIter& m_index(Map*, const u64& k) {
    unsigned j = find(k);
    MIter i = m_iter(j);
    slot = &*i;
    if (!s[j].map) {
        nM++;
        s[j].map = 1;
        slot->second._M_node = nullptr;
    }
    return slot->second;
}
static void m_drop(unsigned k) {
    vc_check(s[k].map == 1, "only what is in the map is erased");
    s[k].map = 0;
    nM--;
}
static MIter m_erase(Map*, MIter i) { vc_check(i._M_node != &mEnd, "the end is not erased"); m_drop(find(i->first)); return m_endIter(); }
static size_t m_erasek(Map*, const u64& k) { m_drop(find(k)); return 1; }
static size_t m_size(const Map*) { return nM; }
static void m_clear(Map*) { nM = s[QS].map = s[RS].map = 0; }
static void m_end_of_life(Map*) {}
static void onPurge(u64& k, u64& v) {
    purgedAll++;
    if (k == Q) purgedQ++, purgeValQ = v;
}
#define EN "eckit::CacheLRU<unsigned long, unsigned long>::Entry"
#define LS "std::__cxx11::list<" EN ", std::allocator<" EN ">>::"
#define LI "std::_List_iterator<" EN ">"
#define MP "std::map<unsigned long, " LI ", std::less<unsigned long>, std::allocator<std::pair<unsigned long const, " LI ">>>::"
static u64 n0, cap0, q0, r0, sQ, sR, vQ, vR;
static void state(Cache& c) {   // any state satisfying the class invariant
    vc_replace(LS "begin", (void*)l_begin);
    vc_replace(LS "end", (void*)l_end);
    vc_replace(LS "size", (void*)l_size);
    vc_replace(LS "empty", (void*)l_empty);
    vc_replace(LS "front", (void*)l_front);
    vc_replace(LS "back", (void*)l_back);
    vc_replace(LS "push_front", (void*)l_push);
    vc_replace(LS "erase", (void*)l_erase);
    vc_replace(LS "pop_back", (void*)l_pop);
    vc_replace(LS "splice", (void*)l_splice);
    vc_replace(LS "clear", (void*)l_clear);
    vc_replace(LS "~list", (void*)l_end_of_life);
    vc_replace(LI "::operator*", (void*)i_star);
    vc_replace(LI "::operator->", (void*)i_arrow);
    vc_replace(LI "::operator++", (void*)i_next);
    vc_replace(MP "find(unsigned long const&)", (void*)m_find);
    vc_replace(MP "find(unsigned long const&) const", (void*)m_findc);
    vc_replace(MP "end()", (void*)m_end);
    vc_replace(MP "end() const", (void*)m_endc);
    vc_replace(MP "operator[]", (void*)m_index);
    vc_replace(MP "erase(std::_Rb_tree_iterator<std::pair<unsigned long const, " LI ">>)", (void*)m_erase);
    vc_replace(MP "erase[abi:cxx11](std::_Rb_tree_iterator<std::pair<unsigned long const, " LI ">>)", (void*)m_erase);
    vc_replace(MP "erase(unsigned long const&)", (void*)m_erasek);
    vc_replace(MP "size", (void*)m_size);
    vc_replace(MP "clear", (void*)m_clear);
    vc_replace(MP "~map", (void*)m_end_of_life);
    vc_unmodelled("std::__cxx11::list<" EN);
    vc_unmodelled("std::map<unsigned long, " LI);
    nL = nM = n0 = vc_u64("n");
    clk = vc_range(0, 1ull << 40, "clock");
    cap0 = c.capacity_ = vc_u64("capacity");
    Q = vc_u64("Q");
    R = vc_u64("R");
    s[QS].e().key_ = Q;
    s[RS].e().key_ = R;
    s[QS].e().value_ = vQ = vc_u64("value");
    s[RS].e().value_ = vR = vc_u64("value");
    s[QS].in = s[QS].map = q0 = vc_bool("Q there");
    s[RS].in = s[RS].map = r0 = vc_bool("R there");
    s[QS].stamp = sQ = vc_u64("stamp");
    s[RS].stamp = sR = vc_u64("stamp");
    vc_assume((n0 <= cap0) & (n0 < (1ull << 40)) & (Q != R) & (sQ <= clk) & (sR <= clk) & (sQ != sR) & (q0 + r0 <= n0));
    front_ = back_ = NONE;
    purgedQ = purgedAll = 0;
    slot = nullptr;
}
static void inv(Cache& c) {
    vc_check(nL == nM && nM <= c.capacity_, "never more entries than the capacity; list and map have the same size");
    vc_check(s[QS].in == s[QS].map && s[RS].in == s[RS].map, "list and map hold the same keys");
}
static Cache* it;
static u64 nT, qT, rT, vT, tT, kT;   // at the start of trim; value and stamp of R then, key at the front
static unsigned frontT;
static bool inv_trim(Cache*& self) {
    return (self == it) & (nL == nM) & (nM <= nT) & ((nM >= it->capacity_) | (nM == nT)) & (s[QS].in <= qT) & (s[RS].in <= rT) & (s[QS].map == s[QS].in) & (s[RS].map == s[RS].in) &
           (s[QS].in + s[RS].in <= nL) & vc_imp((s[RS].in == 0) & (rT != 0) & (s[QS].in != 0), s[RS].stamp < s[QS].stamp) & (purgedQ == qT - s[QS].in) &
           vc_imp(qT > s[QS].in, purgeValQ == vQ) & (purgedAll == nT - nM) & ((qT - s[QS].in) + (rT - s[RS].in) <= nT - nM) & (keyOf(QS) == Q) & (keyOf(RS) == R) &
           (s[QS].e().value_ == vQ) & (s[QS].stamp == sQ) & (s[RS].e().value_ == vT) & ((frontT == RS) ? (s[RS].stamp > sQ) : (s[RS].stamp == sR)) & (back_ == NONE) & ((front_ == frontT) | ((front_ == NONE) & (nL == 0))) &
           vc_imp((nL > 0) & (frontT == RS), s[RS].in == 1) & vc_imp((nL > 0) & (frontT == FS), (s[FS].in == 1) & (s[FS].map == 1) & (keyOf(FS) == kT) & (kT != Q) & (kT != R) & (s[FS].stamp > sQ) & (s[FS].stamp > sR));
}
static void trimmed(Cache& c, u64 n, u64 r, unsigned front, u64 v, u64 k = 0) { it = &c, nT = n, qT = q0, rT = r, frontT = front, vT = v, kT = k; }
#define TRIM vc_loop("eckit::CacheLRU<unsigned long, unsigned long>::trim", 0, (void*)inv_trim)
static void kept() {
    vc_check(purgedQ == q0 - s[QS].in && s[QS].in <= q0, "each entry evicted is handed to the purge function once");
    if (purgedQ) vc_check(purgeValQ == vQ, "with its value");
    if (s[QS].in) vc_check(s[QS].e().value_ == vQ && s[QS].stamp == sQ && s[QS].e().key_ == Q, "the others are unchanged");
}
VC_HARNESS(resize) {
    if (!vc_symbolic()) return;
    TRIM;
    Cache& c = *new Cache(0, onPurge);   // (never destroyed: clear is looked at on its own)
    state(c);
    trimmed(c, n0, r0, NONE, vR);
    u64 m = vc_u64("m");
    c.capacity(m);
    inv(c);
    vc_check(c.capacity() == m && c.size() == (n0 < m ? n0 : m), "as many entries as fit are kept");
    if (q0 && !s[RS].in && r0 && s[QS].in) vc_check(sR < sQ, "the least recently used entries go first");
    kept();
}
VC_HARNESS(insert) {   // R is the key inserted, Q any other
    if (!vc_symbolic()) return;
    TRIM;
    Cache& c = *new Cache(0, onPurge);   // (never destroyed: clear is looked at on its own)
    state(c);
    u64 v = vc_u64("value");
    trimmed(c, n0 + 1 - r0, 1, RS, v);
    vc_check(c.insert(R, v) == (r0 != 0), "tells whether the key was there");
    inv(c);
    vc_check(c.size() == (nT < cap0 ? nT : cap0), "as many entries as fit are kept");
    vc_check(s[RS].in == (cap0 > 0), "the key inserted is there");
    if (s[RS].in) {
        vc_check(s[RS].e().value_ == v && s[RS].e().key_ == R, "with the value inserted");
        vc_check(slot && slot->first == R && slot->second._M_node == &s[RS].n, "the map leads to the entry of the key");
        vc_check(s[RS].stamp > sQ, "the key inserted is the most recent");
    }
    if (r0 || n0 < cap0) vc_check(s[QS].in == q0, "nothing is evicted when there is room");
    kept();
}
VC_HARNESS(insert_evicts) {   // a new key: which of Q and R goes when the cache is full
    if (!vc_symbolic()) return;
    TRIM;
    Cache& c = *new Cache(0, onPurge);   // (never destroyed: clear is looked at on its own)
    state(c);
    u64 k = vc_u64("key");
    vc_assume(k != R && k != Q);
    trimmed(c, n0 + 1, r0, FS, vR, k);
    vc_check(!c.insert(k, 1), "tells whether the key was there");
    inv(c);
    if (q0 && r0 && s[QS].in && !s[RS].in) vc_check(sR < sQ, "the least recently used entries go first");
    kept();
}
VC_HARNESS(access) {
    if (!vc_symbolic()) return;
    Cache& c = *new Cache(0, onPurge);   // (never destroyed: clear is looked at on its own)
    state(c);
    vc_check(c.exists(R) == (r0 != 0), "exists tells whether the key is there");
    vc_check(s[RS].in == r0 && s[RS].stamp == sR, "asking changes nothing");
    u64 v = 0;
    try {
        v = c.access(R);
    }
    catch (OutOfRange&) {
        vc_check(!r0, "a key that is there is found");
        vc_check(nL == n0 && s[QS].in == q0, "a failed access changes nothing");
        return;
    }
    vc_check(r0 && v == vR, "the value last inserted is found");
    inv(c);
    vc_check(nL == n0 && s[QS].in == q0 && s[RS].in == 1 && s[RS].e().value_ == vR && purgedAll == 0, "nothing else changes");
    kept();
    if (q0) vc_check(s[RS].stamp > s[QS].stamp, "the key accessed becomes the most recent");
}
VC_HARNESS(removal) {
    if (!vc_symbolic()) return;
    Cache& c = *new Cache(0, onPurge);   // (never destroyed: clear is looked at on its own)
    state(c);
    bool q = vc_bool("which");
    u64 k = q ? Q : R, had = q ? q0 : r0, v0 = q ? vQ : vR;
    if (vc_bool("extract")) {
        u64 v = 0;
        bool thrown = false;
        try {
            v = c.extract(k);
        }
        catch (OutOfRange&) {
            thrown = true;
        }
        vc_check(thrown == !had, "only a key that is not there is not found");
        if (had) vc_check(v == v0, "the value extracted is the one inserted");
        vc_check(purgedAll == 0, "what is extracted is not purged");
    }
    else {
        vc_check(c.remove(k) == (had != 0), "tells whether the key was there");
        vc_check(purgedAll == had && purgedQ == (q ? had : 0), "what is removed is purged, nothing else");
        if (purgedQ) vc_check(purgeValQ == vQ, "with its value");
    }
    inv(c);
    vc_check(s[q ? QS : RS].in == 0 && nL == n0 - had, "the key is gone");
    if (!q) vc_check(s[QS].in == q0 && s[QS].stamp == sQ && s[QS].e().value_ == vQ, "nothing else changes");
}
static bool inv_clear(Cache*& self, LIter& itr) {
    u64 p = (u64)itr._M_node;
    bool isQ = p == (u64)&s[QS].n, isR = p == (u64)&s[RS].n, isB = p == (u64)&s[BS].n, isF = p == (u64)&s[FS].n, isE = p == (u64)&s[END].n;
    u64 t = vc_ite(isQ, s[QS].stamp, vc_ite(isR, s[RS].stamp, vc_ite(isB, s[BS].stamp, s[FS].stamp)));
    return (self == it) & (isQ | isR | isB | isF | isE) & (nL == n0) & (s[QS].in == q0) & (s[RS].in == r0) & vc_imp(isQ, q0 != 0) & vc_imp(isR, r0 != 0) & vc_imp(isB, s[BS].in == 1) &
           vc_imp(isF, s[FS].in == 1) & vc_imp(isB, (keyOf(BS) != Q) & vc_imp(q0 != 0, s[BS].stamp != sQ)) & vc_imp(isF, (keyOf(FS) != Q) & vc_imp(q0 != 0, s[FS].stamp != sQ)) & (s[QS].stamp == sQ) & (s[RS].stamp == sR) &
           (purgedQ == vc_ite((q0 != 0) & (isE | (sQ > t)), 1, 0)) & vc_imp(purgedQ != 0, purgeValQ == vQ) & (s[QS].e().value_ == vQ) & (keyOf(QS) == Q) & (keyOf(RS) == R) & (s[END].in == 0);
}
VC_HARNESS(clear) {
    if (!vc_symbolic()) return;
    vc_loop("eckit::CacheLRU<unsigned long, unsigned long>::clear", 0, (void*)inv_clear);
    Cache& c = *new Cache(0, onPurge);   // (never destroyed: clear is looked at on its own)
    state(c);
    it = &c;
    c.clear();
    vc_check(c.size() == 0 && nM == 0 && s[QS].in == 0 && s[QS].map == 0, "nothing is left");
    vc_check(purgedQ == q0, "every entry is purged once");
    if (purgedQ) vc_check(purgeValQ == vQ, "with its value");
}
// ------------------------------------------------------------------ native runs: any history against a list kept by hand
static std::vector<std::pair<u64, u64>> purges;
static void note(u64& k, u64& v) { purges.push_back({k, v}); }
//@ harness history: native
VC_HARNESS(history) {   // the contracts above cover every history; this finds a failing one when a contract fails
    size_t cap = vc_range(0, 4, "capacity");
    Cache c(cap, note);
    std::vector<std::pair<u64, u64>> m, gone;   // most recent first
    purges.clear();
    auto find = [&](u64 k) { size_t i = 0; while (i < m.size() && m[i].first != k) i++; return i; };
    size_t steps = vc_range(1, 14, "steps");
    for (size_t s = 0; s < steps; s++) {
        u64 op = vc_range(0, 9, "op"), k = vc_range(0, 5, "key");
        size_t i = find(k);
        bool had = i < m.size();
        if (op < 4) {
            vc_check(c.insert(k, 100 + s) == had, "tells whether the key was there");
            if (had) m.erase(m.begin() + i);
            m.insert(m.begin(), {k, 100 + s});
        }
        else if (op < 6) {
            try {
                u64 v = c.access(k);
                vc_check(had && v == m[i].second, "the value last inserted is found");
                auto e = m[i];
                m.erase(m.begin() + i);
                m.insert(m.begin(), e);
            }
            catch (OutOfRange&) { vc_check(!had, "a key that is there is found"); }
        }
        else if (op == 6) {
            vc_check(c.remove(k) == had, "tells whether the key was there");
            if (had) gone.push_back(m[i]), m.erase(m.begin() + i);
        }
        else if (op == 7) {
            try {
                u64 v = c.extract(k);
                vc_check(had && v == m[i].second, "the value extracted is the one inserted");
                m.erase(m.begin() + i);
            }
            catch (OutOfRange&) { vc_check(!had, "only a key that is not there is not found"); }
        }
        else if (op == 8) c.capacity(cap = vc_range(0, 4, "capacity"));
        else if (vc_range(0, 3, "clear") == 0) {
            c.clear();
            for (auto& e : m) gone.push_back(e);
            m.clear();
        }
        while (m.size() > cap) gone.push_back(m.back()), m.pop_back();
        vc_check(c.size() == m.size() && c.capacity() == cap, "as many entries as fit are kept");
        for (u64 q = 0; q < 6; q++) vc_check(c.exists(q) == (find(q) < m.size()), "the entries kept are the most recently used");
        vc_check(purges == gone, "each entry evicted is handed to the purge function once, with its value");
    }
}
