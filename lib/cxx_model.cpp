/* Out-of-line pieces of libstdc++ that the C++ sources of amino reference, for symbolic execution only
 * (the native replay uses the real library).  The ordered containers are kept as plain binary search
 * trees: balance is not observable, order and links are. */
#include <string>
#include <list>
#include <map>
#include <vector>
#include <cstdlib>
#include <cstring>

extern "C" void *malloc(size_t);
extern "C" void free(void *);
extern "C" void abort(void);

void *operator new(size_t n) { return malloc(n ? n : 1); }
void *operator new[](size_t n) { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" void __cxa_pure_virtual(void) { abort(); }

namespace std {
void __throw_logic_error(const char *) { abort(); }
void __throw_length_error(const char *) { abort(); }
void __throw_out_of_range(const char *) { abort(); }
void __throw_out_of_range_fmt(const char *, ...) { abort(); }
void __throw_bad_alloc(void) { abort(); }
void __throw_bad_array_new_length(void) { abort(); }
void __throw_bad_function_call(void) { abort(); }
void __throw_invalid_argument(const char *) { abort(); }
void __throw_range_error(const char *) { abort(); }

typedef _Rb_tree_node_base N;

_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        N *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<N *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red) return x->_M_right;      /* only the header is red */
    if (x->_M_left) {
        N *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    N *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
static void vfm_replace(N *z, N *y, N &h)       /* put y where z hangs */
{
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    if (y) y->_M_parent = z->_M_parent;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
    if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
    if (!z->_M_left) vfm_replace(z, z->_M_right, h);
    else if (!z->_M_right) vfm_replace(z, z->_M_left, h);
    else {
        N *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            vfm_replace(y, y->_M_right, h);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        vfm_replace(z, y, h);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base *n = this->_M_next, *p = this->_M_prev; p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base *tmp = this->_M_prev;
        this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base *t = this;
    do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
}
template class basic_string<char>;
}
extern "C" void _ZSt21ios_base_library_initv(void) {}
