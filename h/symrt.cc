// Out-of-line libstdc++ pieces needed inside the symbolic build (they live in libstdc++.so, so there is no IR for them).
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <cmath>
#include <cstdarg>
#include <cstdio>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// Unbalanced insertion: colours only matter for the header (red) / others (black) distinction used by decrement.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (h._M_left == z) { if (z->_M_right) { auto* m = z->_M_right; while (m->_M_left) m = m->_M_left; h._M_left = m; } else h._M_left = z->_M_parent; }
    if (h._M_right == z) { if (z->_M_left) { auto* m = z->_M_left; while (m->_M_right) m = m->_M_right; h._M_right = m; } else h._M_right = z->_M_parent; }
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        auto* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base&, _List_node_base&) noexcept { __builtin_trap(); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t p[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
    for (size_t x : p) if (x >= n) { _M_next_resize = (size_t)((double)x * (double)1.0); return x; }
    _M_next_resize = n; return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni; if (!_M_next_resize && want < 11) want = 11;
        if (want >= nb) { size_t g = nb * 2; size_t w = want + 1 > g ? want + 1 : g; return {true, _M_next_bkt(w)}; }
        _M_next_resize = nb; return {false, 0};
    }
    return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
}  // namespace std
extern "C" int strcmp(const char* a, const char* b) {
    while (*a && *a == *b) a++, b++;
    return (unsigned char)*a - (unsigned char)*b;
}
// Numbers printed into messages: the text is not modelled.
extern "C" int vsnprintf(char* s, size_t n, const char*, va_list) noexcept {
    if (n > 1) s[0] = '?', s[1] = 0;
    return 1;
}
#include <chrono>
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return {}; }
// std::invalid_argument objects: what() must be callable, its text is not modelled.
extern "C" void symrt_exc_dtor(void*) {}
extern "C" const char* symrt_exc_what(const void*) { return "error"; }
extern "C" void* const symrt_exc_vtable[3] = {(void*)symrt_exc_dtor, (void*)symrt_exc_dtor, (void*)symrt_exc_what};
#define SYMRT_EXC(n, sig) extern "C" void n(void* self, const void*) __asm__(sig); extern "C" void n(void* self, const void*) { *(void* const**)self = symrt_exc_vtable; }
SYMRT_EXC(symrt_exc1, "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
SYMRT_EXC(symrt_exc2, "_ZNSt16invalid_argumentC1EPKc")
SYMRT_EXC(symrt_exc3, "_ZNSt16invalid_argumentC1ERKS_")
