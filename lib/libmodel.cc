// Executable models of a few libc / libstdc++ functions (symbolic run only).
#include <cstddef>
#include <string>
#include <map>
#include <list>
#include <vector>

template class std::__cxx11::basic_string<char>;   // the real libstdc++ string, instantiated so that its bodies are visible

extern "C" {
int vcmodel_errno = 0;
__attribute__((used)) int vcmodel_memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
__attribute__((used)) size_t vcmodel_strlen(const char* s) {
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
__attribute__((used)) void* vcmodel_memchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; i++)
        if (p[i] == (unsigned char)c) return (void*)(p + i);
    return nullptr;
}
}

// std::to_string: only ever the text of a message in the code under proof; modelled as a fixed text
#define TS(T, M) __attribute__((used)) std::string vcm_to_string_##M(T) asm("vcm._ZNSt7__cxx119to_stringE" #M); std::string vcm_to_string_##M(T) { return "#"; }
TS(int, i) TS(long, l) TS(long long, x) TS(unsigned, j) TS(unsigned long, m) TS(unsigned long long, y) TS(float, f) TS(double, d)

// red-black tree primitives of std::map / std::set (textbook versions: unbalanced insertion keeps the search order)
namespace std {
__attribute__((used)) _Rb_tree_node_base* vcm_inc(_Rb_tree_node_base* x) asm("vcm._ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
_Rb_tree_node_base* vcm_inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
__attribute__((used)) const _Rb_tree_node_base* vcm_incc(const _Rb_tree_node_base* x) asm("vcm._ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
const _Rb_tree_node_base* vcm_incc(const _Rb_tree_node_base* x) { return vcm_inc(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((used)) _Rb_tree_node_base* vcm_dec(_Rb_tree_node_base* x) asm("vcm._ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
_Rb_tree_node_base* vcm_dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
__attribute__((used)) const _Rb_tree_node_base* vcm_decc(const _Rb_tree_node_base* x) asm("vcm._ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
const _Rb_tree_node_base* vcm_decc(const _Rb_tree_node_base* x) { return vcm_dec(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((used)) void vcm_ins(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) asm("vcm._ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void vcm_ins(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
__attribute__((used)) _Rb_tree_node_base* vcm_era(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) asm("vcm._ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
_Rb_tree_node_base* vcm_era(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) {
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
    }
    else {
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    return z;
}
}
// std::list primitives
namespace std { namespace __detail {
__attribute__((used)) void vcm_hook(_List_node_base* t, _List_node_base* p) asm("vcm._ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void vcm_hook(_List_node_base* t, _List_node_base* p) { t->_M_next = p; t->_M_prev = p->_M_prev; p->_M_prev->_M_next = t; p->_M_prev = t; }
__attribute__((used)) void vcm_unhook(_List_node_base* t) asm("vcm._ZNSt8__detail15_List_node_base9_M_unhookEv");
void vcm_unhook(_List_node_base* t) { _List_node_base *n = t->_M_next, *q = t->_M_prev; q->_M_next = n; n->_M_prev = q; }
__attribute__((used)) void vcm_transfer(_List_node_base* t, _List_node_base* f, _List_node_base* l) asm("vcm._ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
void vcm_transfer(_List_node_base* t, _List_node_base* f, _List_node_base* l) {
    if (t != l) {
        l->_M_prev->_M_next = t; f->_M_prev->_M_next = l; t->_M_prev->_M_next = f;
        _List_node_base* tmp = t->_M_prev;
        t->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = tmp;
    }
}
}}
