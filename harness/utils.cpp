// Mathematical, combinatorial, container, array and hashing utilities.
#include "vx.h"

#include <fiction/utils/array_utils.hpp>
#include <fiction/utils/combination_utils.hpp>
#include <fiction/utils/hash.hpp>
#include <fiction/utils/map_utils.hpp>
#include <fiction/utils/math_utils.hpp>
#include <fiction/utils/stl_utils.hpp>

#include <array>
#include <cmath>
#include <map>
#include <set>
#include <vector>

using namespace fiction;

// ------------------------------------------------------------------ math
VX_ENTRY(abs64)
{
    const int64_t v = vx_i64("v");
    vx_assume(v != INT64_MIN);
    const int64_t r = integral_abs<int64_t>(v);
    vx_check(r >= 0 && (r == v || r == -v), "absolute value of int64");
    const uint64_t u = vx_u64("u");
    vx_check(integral_abs<uint64_t>(u) == u, "absolute value of uint64 is the identity");
    const auto u32 = vx_u32("u32");
    vx_check(integral_abs<uint32_t>(u32) == u32, "absolute value of uint32 is the identity");
    const auto u8 = vx_u8("u8");
    vx_check(integral_abs<uint8_t>(u8) == u8, "absolute value of uint8 is the identity");
    vx_observe(static_cast<uint64_t>(r));
}
VX_ENTRY(abs_small)
{
    const auto v32 = vx_i32("v32");
    vx_assume(v32 != INT32_MIN);
    const auto r32 = integral_abs<int32_t>(v32);
    vx_check(r32 >= 0 && (r32 == v32 || r32 == -v32), "absolute value of int32");
    const auto v16 = vx_i16("v16");
    vx_assume(v16 != INT16_MIN);
    const auto r16 = integral_abs<int16_t>(v16);
    vx_check(r16 >= 0 && (r16 == v16 || r16 == -v16), "absolute value of int16");
    const auto v8 = vx_i8("v8");
    vx_assume(v8 != INT8_MIN);
    const auto r8 = integral_abs<int8_t>(v8);
    vx_check(r8 >= 0 && (r8 == v8 || r8 == -v8), "absolute value of int8");
}
VX_ENTRY(binomial_small)
{
    // every representable value up to row 62 (and 67 partially) against Pascal's rule computed by addition only
    const uint64_t n = vx_concretize(vx_range("n", 0, 67));
    const uint64_t k = vx_range("k", 0, 70);
    std::array<unsigned __int128, 72> row{};
    row[0] = 1;
    for (uint64_t i = 1; i <= n; ++i)
        for (uint64_t j = i; j > 0; --j)
            row[j] += row[j - 1];
    const uint64_t kk = vx_concretize(k);
    const auto     r  = binomial_coefficient(n, kk);
    vx_check(static_cast<unsigned __int128>(r) == row[kk], "binomial coefficients follow Pascal's rule");
    vx_observe(r);
}
VX_ENTRY(binomial_wide)
{
    const uint64_t n = vx_u64("n");
    vx_check(binomial_coefficient(n, 0) == 1, "choosing nothing");
    vx_check(binomial_coefficient(n, n) == 1, "choosing everything");
    vx_assume(n > 1);
    vx_check(binomial_coefficient(n, 1) == n, "choosing one");
    vx_check(binomial_coefficient(n, n - 1) == n, "leaving one out");
    const uint64_t k = vx_u64("k");
    vx_assume(k > n);
    vx_check(binomial_coefficient(n, k) == 0, "choosing more than there are");
}
VX_ENTRY(round_int)
{
    // integers are not changed by rounding to decimal places
    const auto v = static_cast<int32_t>(vx_irange("v", -VX_B(300, 2000), VX_B(300, 2000)));
    const auto n = vx_concretize(vx_range("n", 0, VX_B(1, 2)));
    vx_check(round_to_n_decimal_places<int32_t>(v, n) == v, "rounding leaves integers alone");
}
VX_ENTRY(round_double)
{
    // x = t / 64: x * 10^n is exact, the nearest integer m (ties away from zero) is computed in integers
    const auto t = vx_irange("t", -VX_B(255, 2000), VX_B(255, 2000));
    const auto n = vx_concretize(vx_range("n", 0, VX_B(2, 3)));
    double     f  = 1;
    int64_t    fi = 1;
    for (uint64_t i = 0; i < n; ++i)
    {
        f *= 10;
        fi *= 10;
    }
    const int64_t a = t < 0 ? -t : t;
    const int64_t m = (2 * a * fi + 64) / 128;
    const double  r = round_to_n_decimal_places(static_cast<double>(t) / 64.0, n);
    const double  e = static_cast<double>(m) / f;
    vx_check(r == (t < 0 ? -e : e), "rounds to the nearest multiple of 10^-n, ties away from zero");
}
VX_ENTRY(chi)
{
    const auto           n = vx_concretize(vx_range("n", 0, VX_B(2, 3)));
    std::vector<double>  c{}, w{};
    double               s = 0;
    static const char* const cn[] = {"c0", "c1", "c2", "c3"};
    static const char* const wn[] = {"w0", "w1", "w2", "w3"};
    for (uint64_t i = 0; i < n; ++i)
    {
        // small integers: sums and products are exact, so every summation order gives the same result
        const auto ci = static_cast<double>(vx_irange(cn[i], -7, 7));
        const auto wi = static_cast<double>(static_cast<int64_t>(vx_concretize(static_cast<uint64_t>(vx_irange(wn[i], -2, 2)))));
        c.push_back(ci);
        w.push_back(wi);
        s += wi * ci;
    }
    vx_check(cost_function_chi(c, w) == s, "chi is the weighted sum");
    w.push_back(1.0);
    bool threw = false;
    try
    {
        (void)cost_function_chi(c, w);
    }
    catch (const std::invalid_argument&)
    {
        threw = true;
    }
    vx_check(threw, "different sizes are rejected");
}
// ------------------------------------------------------------------ combinatorics
VX_ENTRY(cartesian)
{
    const auto dims = vx_concretize(vx_range("dims", 0, VX_B(3, 4)));
    static const char* const sn[] = {"s0", "s1", "s2", "s3"};
    static const char* const vn[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11"};
    std::vector<std::vector<uint32_t>> sets{};
    uint64_t                           total = 1, nv = 0;
    for (uint64_t i = 0; i < dims; ++i)
    {
        const auto            sz = vx_concretize(vx_range(sn[i], 0, 3));
        std::vector<uint32_t> s{};
        for (uint64_t j = 0; j < sz; ++j)
            s.push_back(vx_u32(vn[nv++]));
        total *= sz;
        sets.push_back(s);
    }
    const auto r = cartesian_combinations(sets);
    vx_check(r.size() == total, "the number of combinations is the product of the sizes");
    // each index tuple occurs once, in lexicographic order of the choices
    bool ok = true;
    for (uint64_t idx = 0; idx < r.size(); ++idx)
    {
        if (r[idx].size() != dims)
        {
            vx_fail("every combination has one element per dimension");
        }
        uint64_t rest = idx;
        for (uint64_t i = dims; i-- > 0;)
        {
            ok = ok & (r[idx][i] == sets[i][rest % sets[i].size()]);
            rest /= sets[i].size();
        }
    }
    vx_check(ok, "every combination picks element i from set i, each choice exactly once");
}
VX_ENTRY(distribute)
{
    const auto n = vx_concretize(vx_range("n", 0, VX_B(7, 9)));
    const auto k = vx_concretize(vx_range("k", 0, n + 1));
    const auto r = determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n);
    if (k == 0 || k > n)
    {
        vx_check(r.empty(), "nothing to distribute");
        return;
    }
    // any k-subset, chosen symbolically, occurs exactly once
    const auto mask = vx_range("mask", 0, (1ull << n) - 1);
    uint64_t   bits = 0;
    for (uint64_t i = 0; i < n; ++i)
        bits += (mask >> i) & 1u;
    vx_assume(bits == k);
    uint64_t hits = 0;
    for (const auto& c : r)
    {
        if (c.size() != k)
            vx_fail("every combination has k positions");
        uint64_t m = 0;
        for (const auto p : c)
        {
            if (p >= n || ((m >> p) & 1u) != 0)
                vx_fail("positions are distinct and within range");
            m |= 1ull << p;
        }
        hits += (m == mask) ? 1 : 0;
    }
    vx_check(hits == 1, "every choice of k positions occurs exactly once");
    vx_observe(r.size());
}
// ------------------------------------------------------------------ containers
VX_ENTRY(first_two)
{
    static const char* const an[] = {"a0", "a1", "a2", "a3", "a4"};
    static const char* const bn[] = {"b0", "b1", "b2", "b3"};
    const auto            na = vx_concretize(vx_range("na", 0, VX_B(4, 5)));
    const auto            nb = vx_concretize(vx_range("nb", 0, VX_B(3, 4)));
    std::vector<uint32_t> a{}, b{};
    for (uint64_t i = 0; i < na; ++i)
        a.push_back(vx_u32(an[i]));
    for (uint64_t i = 0; i < nb; ++i)
        b.push_back(vx_u32(bn[i]));
    const auto it  = find_first_two_of(a.begin(), a.end(), b.begin(), b.end());
    uint64_t   ref = na;
    for (uint64_t i = na; i-- > 0;)
        for (uint64_t j = 0; i + 1 < na && j + 1 < nb; ++j)
            if ((a[i] == b[j]) & (a[i + 1] == b[j + 1]))
                ref = i;
    vx_check(static_cast<uint64_t>(it - a.begin()) == ref, "first position of the first shared two-element subsequence, or the end");
}
VX_ENTRY(pqueue)
{
    static const char* const an[] = {"a0", "a1", "a2", "a3", "a4"};
    const auto n = vx_concretize(vx_range("n", 0, VX_B(4, 5)));
    searchable_priority_queue<uint32_t> q{};
    std::vector<uint32_t>               ref{};
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto v = vx_u32(an[i]);
        q.push(v);
        ref.push_back(v);
    }
    const auto pops = vx_concretize(vx_range("pops", 0, n));
    for (uint64_t i = 0; i < pops; ++i)
    {
        auto mx = ref.begin();
        for (auto it = ref.begin(); it != ref.end(); ++it)
            if (*it > *mx)
                mx = it;
        vx_check(q.top() == *mx, "the largest element is on top");
        q.pop();
        ref.erase(mx);
    }
    const auto probe = vx_u32("probe");
    bool       in    = false;
    for (const auto v : ref)
        in = in | (v == probe);
    vx_check(q.contains(probe) == in, "contains exactly the elements pushed and not popped");
    const auto& cq = q;
    vx_check(q.size() == ref.size() && static_cast<uint64_t>(cq.end() - cq.begin()) == ref.size() && static_cast<uint64_t>(q.cend() - q.cbegin()) == ref.size(), "iteration covers the stored elements");
    const auto f = q.find(probe);
    vx_check(in ? (f != q.end() && *f == probe) : f == q.end(), "find returns the element or the end");
    const auto cf = cq.find(probe);
    vx_check(in ? (cf != cq.end() && *cf == probe) : cf == cq.end(), "const find returns the element or the end");
}
VX_ENTRY(tolerance_map)
{
    // keys are multiples of a quarter of the documented tolerance of 1e-6
    static const char* const kn[] = {"k0", "k1", "k2"};
    const auto n = vx_concretize(vx_range("n", 0, VX_B(2, 3)));
    std::map<double, int> m{};
    std::vector<int64_t>  ks{};
    constexpr double      q = 0x1p-22;  // 2.4e-7
    int64_t last = -1000;
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto k = static_cast<int64_t>(vx_concretize(static_cast<uint64_t>(vx_irange(kn[i], -VX_B(3, 6), VX_B(3, 6)))));
        vx_assume(k > last);
        last = k;
        ks.push_back(k);
        m.emplace(static_cast<double>(k) * q, static_cast<int>(i));
    }
    const auto probe = vx_irange("probe", -VX_B(8, 12), VX_B(8, 12));
    const auto it    = find_key_with_tolerance(m, static_cast<double>(probe) * q);
    int        ref   = -1;
    for (uint64_t i = n; i-- > 0;)
        if (ks[i] - probe <= 4 && probe - ks[i] <= 4)  // 4 * 2^-22 = 9.5e-7 < 1e-6 < 5 * 2^-22
            ref = static_cast<int>(i);
    vx_check((it == m.cend()) == (ref < 0), "a key within the tolerance is found, no other is");
    if (it != m.cend())
    {
        const auto d = static_cast<int64_t>(it->first / q) - probe;
        vx_check(d <= 4 && d >= -4, "the returned key lies within the tolerance");
        vx_check(it->second == ref, "the first key within the tolerance is returned");
    }
}
// ------------------------------------------------------------------ arrays
VX_ENTRY(arrays)
{
    const auto v = vx_i32("v");
    const auto a = create_array<5>(v);
    static_assert(std::is_same_v<std::remove_cv_t<decltype(a)>, std::array<int32_t, 5>>);
    bool ok = true;
    for (const auto e : a)
        ok = ok & (e == v);
    vx_check(ok, "created arrays hold N copies");
    std::array<int32_t, 4> b{};
    b[0] = vx_i32("b0");
    b[1] = vx_i32("b1");
    b[2] = vx_i32("b2");
    b[3] = vx_i32("b3");
    const auto c = convert_array<int8_t>(b);
    static_assert(std::is_same_v<std::remove_cv_t<decltype(c)>, std::array<int8_t, 4>>);
    const auto w = convert_array<int64_t>(b);
    for (std::size_t i = 0; i < 4; ++i)
    {
        vx_check(c[i] == static_cast<int8_t>(b[i]), "narrowing conversion is element-wise");
        vx_check(w[i] == static_cast<int64_t>(b[i]), "widening conversion is element-wise");
    }
    std::array<std::array<int32_t, 2>, 3> m{};
    m[0] = {b[0], b[1]};
    m[1] = {b[2], b[3]};
    m[2] = {v, b[0]};
    const auto d = convert_array_of_arrays<uint16_t>(m);
    static_assert(std::is_same_v<std::remove_cv_t<decltype(d)>, std::array<std::array<uint16_t, 2>, 3>>);
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 2; ++j)
            vx_check(d[i][j] == static_cast<uint16_t>(m[i][j]), "two-dimensional conversion is element-wise");
}
// ------------------------------------------------------------------ hashing
namespace
{
struct weak  // a type whose std::hash is the identity
{
    uint64_t v;
};
}  // namespace
template <>
struct std::hash<weak>
{
    std::size_t operator()(const weak& w) const noexcept
    {
        return w.v;
    }
};
VX_ENTRY(hash_equal)
{
    // equal values have equal hashes, whatever they were built from
    std::array<uint64_t, 3> a{}, b{};
    a[0] = vx_u64("a0");
    a[1] = vx_u64("a1");
    a[2] = vx_u64("a2");
    b[0] = vx_u64("b0");
    b[1] = vx_u64("b1");
    b[2] = vx_u64("b2");
    if (a == b)
        vx_check(std::hash<std::array<uint64_t, 3>>{}(a) == std::hash<std::array<uint64_t, 3>>{}(b), "equal arrays have equal hashes");
    const std::pair<uint64_t, uint64_t> p{a[0], a[1]}, q{b[0], b[1]};
    if (p == q)
        vx_check(std::hash<std::pair<uint64_t, uint64_t>>{}(p) == std::hash<std::pair<uint64_t, uint64_t>>{}(q), "equal pairs have equal hashes");
    // a one-component change of a pair always changes its hash (hash_combine is injective in its last value)
    const std::pair<uint64_t, uint64_t> r{a[0], b[1]};
    if (a[1] != b[1])
        vx_check(std::hash<std::pair<uint64_t, uint64_t>>{}(p) != std::hash<std::pair<uint64_t, uint64_t>>{}(r), "pairs differing in the second component have different hashes");
}
VX_ENTRY(hash_sets)
{
    // a set's hash does not depend on the insertion order
    const auto a = vx_u32("a");
    const auto b = vx_u32("b");
    const auto c = vx_u32("c");
    std::set<uint32_t> s{}, t{};
    s.insert(a);
    s.insert(b);
    s.insert(c);
    t.insert(c);
    t.insert(a);
    t.insert(b);
    vx_check(std::hash<std::set<uint32_t>>{}(s) == std::hash<std::set<uint32_t>>{}(t), "a set's hash is independent of insertion order");
    std::multiset<uint32_t> ms{}, mt{};
    vx_assume(a != b);
    ms.insert(a);
    ms.insert(b);
    mt.insert(b);
    mt.insert(a);
    vx_check(std::hash<std::multiset<uint32_t>>{}(ms) == std::hash<std::multiset<uint32_t>>{}(mt), "a multiset's hash is independent of insertion order");
}
VX_ENTRY(hash_unordered)
{
    // folding values unordered: the order does not matter; one changed value always changes the result
    const auto  a = vx_u64("a");
    const auto  b = vx_u64("b");
    const auto  c = vx_u64("c");
    std::size_t h1 = 7, h2 = 7;
    hash_combine_unordered(h1, a);
    hash_combine_unordered(h1, b);
    hash_combine_unordered(h1, c);
    hash_combine_unordered(h2, c);
    hash_combine_unordered(h2, a);
    hash_combine_unordered(h2, b);
    vx_check(h1 == h2, "the order of folding does not matter");
}
VX_ENTRY(hash_multiplicity)
{
    // the result depends on which values were combined and how often
    const auto  seed = vx_u64("seed");
    const auto  a    = vx_concretize(vx_range("a", 1, VX_B(16, 64)));
    const auto  b    = vx_range("b", 0, 255);
    std::size_t h1 = seed, h2 = seed, h3 = seed;
    hash_combine_unordered(h1, a);
    vx_check(h1 != seed, "combining a value changes the seed");
    hash_combine_unordered(h2, a);
    hash_combine_unordered(h2, a);
    vx_check(h2 != seed && h2 != h1, "combining a value twice differs from combining it once or never");
    hash_combine_unordered(h3, b);
    vx_check(h3 != h1 || a == b, "different values are told apart");
    std::size_t h4 = h3, h5 = seed;
    hash_combine_unordered(h4, a);
    hash_combine_unordered(h4, a);
    hash_combine_unordered(h5, b);
    vx_check(h4 != h5, "multiplicities count whatever else is combined");
}
VX_ENTRY(hash_sums)
{
    // values with the same sum are told apart: {a, b} against {a + d, b - d}
    const auto  a = vx_concretize(vx_range("a", 0, VX_B(7, 15)));
    const auto  d = vx_concretize(vx_range("d", 1, VX_B(7, 15)));
    const auto  b = vx_range("b", 0, 63);
    vx_assume(b >= d && a + d != b);
    std::size_t h1 = 0, h2 = 0;
    hash_combine_unordered(h1, a);
    hash_combine_unordered(h1, b);
    hash_combine_unordered(h2, a + d);
    hash_combine_unordered(h2, b - d);
    vx_check(h1 != h2, "collections of equal sums have different hashes");
}
VX_ENTRY(hash_sensitive)
{
    const auto  a = vx_u64("a");
    const auto  b = vx_u64("b");
    vx_assume(a != b);
    std::size_t h1 = vx_u64("seed");
    std::size_t h2 = h1;
    hash_combine(h1, a);
    hash_combine(h2, b);
    vx_check(h1 != h2, "combining different values into the same seed gives different hashes");
}
