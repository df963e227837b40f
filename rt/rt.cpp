// Parts of libstdc++.so that the harnesses reach, re-implemented so that the symbolic executor sees their IR.
// Behavioural contracts follow the C++ standard; this file is part of the trusted base (see DESIGN.md).
#include "vx.h"
#include <cstdint>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <functional>
#include <optional>
#include <variant>
#include <ios>
#include <regex>
#include <future>

// ------------------------------------------------------------------ exception classes (key functions)
namespace std
{
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const std::string& s)
{
    char* p = new char[s.size() + 1];
    memcpy(p, s.c_str(), s.size() + 1);
    _M_p = p;
}
__cow_string::__cow_string(const char* s, size_t n)
{
    char* p = new char[n + 1];
    memcpy(p, s, n);
    p[n] = 0;
    _M_p = p;
}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string& a) : _M_msg(a) {}
logic_error::logic_error(const char* a) : _M_msg(a, strlen(a)) {}
logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
runtime_error::runtime_error(const string& a) : _M_msg(a) {}
runtime_error::runtime_error(const char* a) : _M_msg(a, strlen(a)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }

domain_error::domain_error(const string& a) : logic_error(a) {}
domain_error::domain_error(const char* a) : logic_error(a) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& a) : logic_error(a) {}
invalid_argument::invalid_argument(const char* a) : logic_error(a) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& a) : logic_error(a) {}
length_error::length_error(const char* a) : logic_error(a) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& a) : logic_error(a) {}
out_of_range::out_of_range(const char* a) : logic_error(a) {}
out_of_range::~out_of_range() noexcept {}
range_error::range_error(const string& a) : runtime_error(a) {}
range_error::range_error(const char* a) : runtime_error(a) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& a) : runtime_error(a) {}
overflow_error::overflow_error(const char* a) : runtime_error(a) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& a) : runtime_error(a) {}
underflow_error::underflow_error(const char* a) : runtime_error(a) {}
underflow_error::~underflow_error() noexcept {}

// ------------------------------------------------------------------ throw helpers
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ------------------------------------------------------------------ red-black tree
static _Rb_tree_node_base* tree_inc(_Rb_tree_node_base* x)
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    auto* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base* tree_dec(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left)
    {
        auto* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    auto* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return tree_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return tree_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return tree_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return tree_dec(const_cast<_Rb_tree_node_base*>(x)); }

static void rot_left(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
    auto* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rot_right(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
    auto* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    auto*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red)
    {
        auto* xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left)
        {
            auto* y = xpp->_M_right;
            if (y && y->_M_color == _S_red)
            {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            }
            else
            {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rot_left(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rot_right(xpp, root);
            }
        }
        else
        {
            auto* y = xpp->_M_left;
            if (y && y->_M_color == _S_red)
            {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            }
            else
            {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rot_right(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rot_left(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto*& root = h._M_parent; auto*& leftmost = h._M_left; auto*& rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z)
    {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right)
        {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        }
        else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    }
    else
    {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z)
        {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { auto* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z)
        {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { auto* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if (y->_M_color != _S_red)
    {
        while (x != root && (!x || x->_M_color == _S_black))
        {
            if (x == xp->_M_left)
            {
                auto* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_left(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black))
                { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else
                {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black)
                    { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rot_right(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rot_left(xp, root);
                    break;
                }
            }
            else
            {
                auto* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_right(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black))
                { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else
                {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black)
                    { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rot_left(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rot_right(xp, root);
                    break;
                }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}

// ------------------------------------------------------------------ hashing
size_t _Hash_bytes(const void* p, size_t len, size_t seed)
{
    // any deterministic function of the bytes is admissible
    const unsigned char* b = static_cast<const unsigned char*>(p);
    size_t h = seed ^ (len * 0x9E3779B97F4A7C15ull);
    for (size_t i = 0; i < len; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897, 480881};
    for (auto q : primes)
        if (q >= n)
        {
            _M_next_resize = static_cast<size_t>(static_cast<double>(q) * static_cast<double>(_M_max_load_factor));
            return q;
        }
    _M_next_resize = ~size_t(0);
    return 1000003;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize)
    {
        double mb = static_cast<double>(std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11)) / static_cast<double>(_M_max_load_factor);
        if (mb >= static_cast<double>(nb)) return {true, _M_next_bkt(std::max<size_t>(static_cast<size_t>(mb) + 1, nb * 2))};
        _M_next_resize = static_cast<size_t>(static_cast<double>(nb) * static_cast<double>(_M_max_load_factor));
    }
    return {false, 0};
}
// ------------------------------------------------------------------ std::list hooks
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    auto* n = _M_next; auto* q = _M_prev; q->_M_next = n; n->_M_prev = q;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        auto* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x)
    {
        if (y._M_next != &y)
        {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
        else
        {
            y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
        }
    }
    else if (y._M_next != &y)
    {
        x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
    }
}
}  // namespace __detail
}  // namespace std

extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_throw_bad_array_length() { throw std::bad_alloc(); }

#include "threads.inc"

// rand(): an arbitrary value up to vx_rand_max; the clock stands still
extern "C"
{
    int  vx_rand_max = 0x7fffffff;
    int  toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
    int  tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
    int  isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
    int  isdigit(int c) { return c >= 48 && c <= 57; }
    int  isalpha(int c) { return (c >= 65 && c <= 90) || (c >= 97 && c <= 122); }
    int  isalnum(int c) { return isalpha(c) != 0 || isdigit(c) != 0; }
    int  rand() { return static_cast<int>(vx_concretize(vx_range("$rand", 0, static_cast<std::uint64_t>(vx_rand_max)))); }
    void srand(unsigned) {}
    long time(long* t) { if (t) *t = 1000; return 1000; }
}
extern "C"
{
    int strncmp(const char* a, const char* b, unsigned long n)
    {
        for (unsigned long i = 0; i < n; ++i)
        {
            if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
            if (!a[i]) break;
        }
        return 0;
    }
}

// numbers in texts
extern "C"
{
    static int     vx_errno = 0;
    int*           __errno_location() { return &vx_errno; }
    // correctly rounded for at most 19 digits and exponents down to -27
    static double vx_decimal(unsigned long long m, int e)
    {
        if (m == 0)
            return 0.0;
        double r = static_cast<double>(m);
        if (e >= 0)
        {
            for (; e > 0; --e)
                r *= 10.0;
            return r;
        }
        int shift = e;  // of the binary point
        while (!(m >> 63))
            m <<= 1, --shift;
        unsigned long long p = 1;
        for (; e < 0 && p < 0x1999999999999999ull; ++e)
            p *= 5;
        using u128 = unsigned __int128;
        const u128 n = static_cast<u128>(m) << 64;
        u128       q = n / p;
        bool  sticky = n % p != 0;
        shift -= 64;
        while (q >> 54)
            sticky = sticky || (q & 1), q >>= 1, ++shift;
        auto f = static_cast<unsigned long long>(q);
        if ((f & 1) && (sticky || (f & 2)))
            f += 2;
        r = static_cast<double>(f >> 1);
        for (++shift; shift > 0; --shift)
            r *= 2.0;
        for (; shift < 0; ++shift)
            r *= 0.5;
        for (; e < 0; ++e)
            r /= 10.0;
        return r;
    }
    static double vx_parse_double(const char* p)
    {
        const bool neg = *p == '-';
        if (*p == '-' || *p == '+')
            ++p;
        unsigned long long m    = 0;
        int                e    = 0;
        bool               frac = false;
        for (; (*p >= '0' && *p <= '9') || (*p == '.' && !frac); ++p)
        {
            if (*p == '.')
                frac = true;
            else if (m < 999999999999999999ull)
                m = m * 10 + static_cast<unsigned long long>(*p - '0'), e -= frac ? 1 : 0;
            else
                e += frac ? 0 : 1;
        }
        if ((*p | 32) == 'e')
        {
            ++p;
            const bool n = *p == '-';
            if (*p == '-' || *p == '+')
                ++p;
            int x = 0;
            for (; *p >= '0' && *p <= '9'; ++p)
                x = x * 10 + (*p - '0');
            e += n ? -x : x;
        }
        while (e < 0 && m != 0 && m % 10 == 0)
            m /= 10, ++e;
        const double r = vx_decimal(m, e);
        return neg ? -r : r;
    }
    static bool    vx_parse_int(const char* s, char** end, int base, unsigned long long& v, bool& neg)
    {
        const char* p = s;
        while (*p == ' ' || (*p >= '\t' && *p <= '\r'))
            ++p;
        neg = *p == '-';
        if (*p == '-' || *p == '+')
            ++p;
        if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x')
            p += 2, base = 16;
        else if (base == 0)
            base = *p == '0' ? 8 : 10;
        bool any = false, over = false;
        v        = 0;
        for (;; ++p)
        {
            const int d = *p >= '0' && *p <= '9' ? *p - '0' : (*p | 32) >= 'a' && (*p | 32) <= 'z' ? (*p | 32) - 'a' + 10 : 99;
            if (d >= base)
                break;
            any  = true;
            over = over || v > (~0ull - static_cast<unsigned long long>(d)) / static_cast<unsigned long long>(base);
            v    = v * static_cast<unsigned long long>(base) + static_cast<unsigned long long>(d);
        }
        if (end)
            *end = const_cast<char*>(any ? p : s);
        return !over;
    }
    unsigned long strtoul(const char* s, char** end, int base)
    {
        unsigned long long v;
        bool               neg;
        if (!vx_parse_int(s, end, base, v, neg))
        {
            vx_errno = 34;
            return ~0ull;
        }
        return neg ? 0 - v : v;
    }
    unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
    long strtol(const char* s, char** end, int base)
    {
        unsigned long long v;
        bool               neg;
        if (!vx_parse_int(s, end, base, v, neg) || v > (1ull << 63) - (neg ? 0 : 1))
        {
            vx_errno = 34;
            return neg ? static_cast<long>(1ull << 63) : static_cast<long>(~0ull >> 1);
        }
        return static_cast<long>(neg ? 0 - v : v);
    }
    long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
    int vx_atoi(const char*) __asm__("atoi");
    int vx_atoi(const char* s) { return static_cast<int>(strtol(s, nullptr, 10)); }
    double    strtod(const char* s, char** end)
    {
        const char* p = s;
        while (*p == ' ')
            ++p;
        const char* b   = p;
        bool        any = false;
        if (*p == '-' || *p == '+')
            ++p;
        for (; (*p >= '0' && *p <= '9') || *p == '.'; ++p)
            any = any || *p != '.';
        if (any && (*p | 32) == 'e')
        {
            const char* q = p + 1;
            if (*q == '-' || *q == '+')
                ++q;
            if (*q >= '0' && *q <= '9')
                for (p = q; *p >= '0' && *p <= '9'; ++p) {}
        }
        if (end)
            *end = const_cast<char*>(any ? p : s);
        if (!any)
            return 0.0;
        char        t[64];
        std::size_t n = 0;
        for (; b != p && n < 63; ++b)
            t[n++] = *b;
        t[n] = 0;
        return vx_parse_double(t);
    }
    double vx_atof(const char*) __asm__("atof");
    double vx_atof(const char* s) { return strtod(s, nullptr); }
    void* vx_localtime_r(const long*, void* tm) __asm__("localtime_r");
    void* vx_localtime_r(const long*, void* tm) { return tm; }
    int    isxdigit(int c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
}
