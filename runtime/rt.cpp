// Verifier-side stand-ins for the few out-of-line libstdc++ functions (they live in libstdc++.so, so no bitcode exists).
// Functional behaviour only: red-black trees are kept as plain (unbalanced) binary search trees with the same header
// conventions; hash tables use a simple growth policy. Iteration order over unordered containers is therefore NOT the
// one of the real library: no contract may rely on it. Part of the trusted base.
#include <unordered_map>
#include <map>
#include <list>
#include <typeinfo>
namespace std {
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    std::size_t b = 13; while (b < n) b = b * 2 + 1;
    _M_next_resize = b; return b;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
    if (elt + ins > bkt) return {true, _M_next_bkt(2 * (elt + ins))};
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
static _Rb_tree_node_base* vp_inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base* vp_dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vp_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vp_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vp_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vp_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;  // only the header is red
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    _Rb_tree_node_base* succ = nullptr;
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        succ = z->_M_right; while (succ->_M_left) succ = succ->_M_left;
        if (succ->_M_parent != z) { repl(succ, succ->_M_right); succ->_M_right = z->_M_right; z->_M_right->_M_parent = succ; }
        repl(z, succ); succ->_M_left = z->_M_left; z->_M_left->_M_parent = succ;
    }
    _Rb_tree_node_base* r = h._M_parent;
    if (!r) { h._M_left = &h; h._M_right = &h; }
    else { _Rb_tree_node_base* l = r; while (l->_M_left) l = l->_M_left; h._M_left = l; l = r; while (l->_M_right) l = l->_M_right; h._M_right = l; }
    return z;
}
}
// ---- <random>: the seed is irrelevant (the distributions are replaced by contracts that return any value of their range)
#include <random>
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return 42; }
}
// ---- type information of the built-in types (in libstdc++ otherwise); std::type_index compares the names
struct vp_type_info { const void* vtable; const char* name; };
extern "C" {
extern const vp_type_info vp_ti_m __asm__("_ZTIm"); const vp_type_info vp_ti_m = {nullptr, "m"};
extern const vp_type_info vp_ti_j __asm__("_ZTIj"); const vp_type_info vp_ti_j = {nullptr, "j"};
extern const vp_type_info vp_ti_i __asm__("_ZTIi"); const vp_type_info vp_ti_i = {nullptr, "i"};
extern const vp_type_info vp_ti_l __asm__("_ZTIl"); const vp_type_info vp_ti_l = {nullptr, "l"};
extern const vp_type_info vp_ti_d __asm__("_ZTId"); const vp_type_info vp_ti_d = {nullptr, "d"};
extern const vp_type_info vp_ti_f __asm__("_ZTIf"); const vp_type_info vp_ti_f = {nullptr, "f"};
extern const vp_type_info vp_ti_b __asm__("_ZTIb"); const vp_type_info vp_ti_b = {nullptr, "b"};
extern const vp_type_info vp_ti_c __asm__("_ZTIc"); const vp_type_info vp_ti_c = {nullptr, "c"};
}
