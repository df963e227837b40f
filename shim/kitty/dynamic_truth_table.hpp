// Stand-in for kitty (not installed here): dynamic truth tables.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <type_traits>
#include <vector>
namespace kitty
{
class dynamic_truth_table
{
  public:
    dynamic_truth_table() : _num_vars{0} { _bits.resize(1, 0); }
    explicit dynamic_truth_table(uint32_t n) : _bits(n <= 6 ? 1u : (1u << (n - 6)), 0ull), _num_vars{n} {}
    template <typename Int, typename = std::enable_if_t<std::is_integral_v<Int>>>
    explicit dynamic_truth_table(Int n) : dynamic_truth_table(static_cast<uint32_t>(n))
    {}
    dynamic_truth_table construct() const { return dynamic_truth_table(_num_vars); }
    uint32_t    num_vars() const { return _num_vars; }
    std::size_t num_blocks() const { return _bits.size(); }
    uint64_t    num_bits() const { return uint64_t(1) << _num_vars; }
    uint64_t    mask() const { return _num_vars >= 6 ? ~uint64_t(0) : (uint64_t(1) << (uint64_t(1) << _num_vars)) - 1; }
    void        mask_bits() { _bits[0] &= mask(); }
    auto        begin() { return _bits.begin(); }
    auto        end() { return _bits.end(); }
    auto        begin() const { return _bits.begin(); }
    auto        end() const { return _bits.end(); }
    auto        cbegin() const { return _bits.begin(); }
    auto        cend() const { return _bits.end(); }

    std::vector<uint64_t> _bits;
    uint32_t              _num_vars;
};
template <class T>
struct is_truth_table : std::false_type
{};
template <>
struct is_truth_table<dynamic_truth_table> : std::true_type
{};
template <class T>
struct is_complete_truth_table : is_truth_table<T>
{};

inline int get_bit(const dynamic_truth_table& t, uint64_t i) { return static_cast<int>((t._bits[i >> 6] >> (i & 63)) & 1); }
inline void set_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] |= uint64_t(1) << (i & 63); }
inline void clear_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] &= ~(uint64_t(1) << (i & 63)); }
inline void flip_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] ^= uint64_t(1) << (i & 63); }
inline bool equal(const dynamic_truth_table& a, const dynamic_truth_table& b) { return a._num_vars == b._num_vars && a._bits == b._bits; }
inline bool operator==(const dynamic_truth_table& a, const dynamic_truth_table& b) { return equal(a, b); }
inline bool operator!=(const dynamic_truth_table& a, const dynamic_truth_table& b) { return !equal(a, b); }
inline bool operator<(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    for (std::size_t i = a._bits.size(); i-- > 0;)
        if (a._bits[i] != b._bits[i])
            return a._bits[i] < b._bits[i];
    return false;
}
inline dynamic_truth_table operator~(const dynamic_truth_table& a)
{
    auto r = a;
    for (auto& w : r._bits)
        w = ~w;
    r.mask_bits();
    return r;
}
inline dynamic_truth_table unary_not(const dynamic_truth_table& a) { return ~a; }
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    auto r = a;
    for (std::size_t i = 0; i < r._bits.size(); ++i)
        r._bits[i] &= b._bits[i];
    return r;
}
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    auto r = a;
    for (std::size_t i = 0; i < r._bits.size(); ++i)
        r._bits[i] |= b._bits[i];
    return r;
}
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    auto r = a;
    for (std::size_t i = 0; i < r._bits.size(); ++i)
        r._bits[i] ^= b._bits[i];
    return r;
}
inline bool is_const0(const dynamic_truth_table& t)
{
    for (auto w : t._bits)
        if (w)
            return false;
    return true;
}
inline bool is_normal(const dynamic_truth_table& t) { return !get_bit(t, 0); }
inline uint64_t count_ones(const dynamic_truth_table& t)
{
    uint64_t n = 0;
    for (auto w : t._bits)
        for (; w; w &= w - 1)
            ++n;
    return n;
}
template <class It>
void create_from_words(dynamic_truth_table& t, It b, It e)
{
    for (std::size_t i = 0; i < t._bits.size() && b != e; ++i, ++b)
        t._bits[i] = static_cast<uint64_t>(*b);
    t.mask_bits();
}
inline void create_from_hex_string(dynamic_truth_table& t, const std::string& s)
{
    for (auto& w : t._bits)
        w = 0;
    auto nib = [](char c) -> uint64_t { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    if (t._num_vars < 2)
    {
        t._bits[0] = nib(s[0]);
        t.mask_bits();
        return;
    }
    uint64_t p = 0;
    for (std::size_t i = s.size(); i-- > 0; p += 4)
        t._bits[p >> 6] |= nib(s[i]) << (p & 63);
    t.mask_bits();
}
inline void create_from_binary_string(dynamic_truth_table& t, const std::string& s)
{
    for (auto& w : t._bits)
        w = 0;
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i] == '1')
            set_bit(t, s.size() - 1 - i);
}
inline void create_nth_var(dynamic_truth_table& t, uint32_t v, bool compl_ = false)
{
    for (uint64_t i = 0; i < t.num_bits(); ++i)
        if ((((i >> v) & 1) != 0) != compl_)
            set_bit(t, i);
        else
            clear_bit(t, i);
}
inline std::string to_hex(const dynamic_truth_table& t)
{
    std::string r;
    const char* d = "0123456789abcdef";
    if (t._num_vars < 2)
        return std::string(1, d[t._bits[0] & 15]);
    for (uint64_t i = t.num_bits() / 4; i-- > 0;)
        r += d[(t._bits[i >> 4] >> ((i & 15) * 4)) & 15];
    return r;
}
inline std::string to_binary(const dynamic_truth_table& t)
{
    std::string r;
    for (uint64_t i = t.num_bits(); i-- > 0;)
        r += get_bit(t, i) ? '1' : '0';
    return r;
}
inline bool has_var(const dynamic_truth_table& t, uint32_t v)
{
    for (uint64_t i = 0; i < t.num_bits(); ++i)
        if (!((i >> v) & 1) && get_bit(t, i) != get_bit(t, i | (uint64_t(1) << v)))
            return true;
    return false;
}
template <class T>
struct hash;
template <>
struct hash<dynamic_truth_table>
{
    std::size_t operator()(const dynamic_truth_table& t) const
    {
        std::size_t h = t._num_vars;
        for (auto w : t._bits)
            h = h * 1099511628211ull ^ w;
        return h;
    }
};
}  // namespace kitty
namespace std
{
template <>
struct hash<kitty::dynamic_truth_table>
{
    std::size_t operator()(const kitty::dynamic_truth_table& t) const { return kitty::hash<kitty::dynamic_truth_table>{}(t); }
};
}  // namespace std
