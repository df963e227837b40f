// Aspect ratio and Gray code iterators.
#include "vx.h"

#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
#include <fiction/layouts/coordinates.hpp>

#include <bitset>
#include <memory>
#include <optional>
#include <vector>

using namespace fiction;
using ari = aspect_ratio_iterator<offset::ucoord_t>;

// all ordered factorizations of n, each exactly once, then on to n + 1; the documented order (narrow side first, both
// orientations next to each other)
VX_ENTRY(ari_factors)
{
    const uint64_t n = vx_concretize(vx_range("n", 0, VX_B(100, 400)));
    ari            it{n};
    const uint64_t first = n == 0 ? 1 : n;
    std::vector<std::pair<uint64_t, uint64_t>> seen{};
    uint64_t cur = first;
    uint64_t count = 0, expected = 0;
    // reference: divisors counted one by one
    for (uint64_t d = 1; d <= first; ++d)
        if (first % d == 0)
            ++expected;
    uint64_t last_small = 0;
    while (it == first)
    {
        const auto     a = *it;
        const uint64_t w = static_cast<uint64_t>(a.x) + 1, h = static_cast<uint64_t>(a.y) + 1;
        vx_check(w * h == first, "every aspect ratio has exactly n faces");
        vx_check(static_cast<uint64_t>(a.z) == 0, "aspect ratios are flat");
        for (const auto& p : seen)
            vx_check(!(p.first == w && p.second == h), "no aspect ratio appears twice");
        seen.emplace_back(w, h);
        const auto small = std::min(w, h);
        vx_check(small >= last_small, "aspect ratios become less elongated");
        if (small > last_small)
            vx_check(w <= h, "the tall orientation comes first");
        last_small = small;
        ++count;
        vx_observe(a.x);
        vx_observe(a.y);
        ++it;
    }
    vx_check(count == expected, "every factorization of n appears");
    vx_check(it == first + 1, "then the number of faces increases by one");
    vx_check(!(it != first + 1) && !(it < first + 1) && it <= first + 1 && it < first + 2 && !(it <= first), "comparisons with the number of faces");
    (void)cur;
}
// copies are independent of the original: advancing, overwriting or destroying the original does not affect a copy
VX_ENTRY(ari_copies)
{
    const uint64_t n  = vx_concretize(vx_range("n", 0, 9));
    const uint64_t k  = vx_concretize(vx_range("k", 0, 5));
    const uint64_t m  = vx_concretize(vx_range("m", 0, 4));
    ari            ref{n};
    for (uint64_t i = 0; i < k; ++i)
        ++ref;
    auto orig = std::make_unique<ari>(n);
    for (uint64_t i = 0; i < k; ++i)
        ++*orig;
    ari        copy{*orig};
    const auto before = *copy;
    vx_check(copy == *orig && !(copy != *orig), "a copy equals its original");
    vx_check(before == *ref, "a copy points to the same aspect ratio");
    for (uint64_t i = 0; i < m; ++i)
        ++*orig;
    vx_check(*copy == before, "advancing the original leaves the copy in place");
    vx_check((copy == *orig) == (m == 0), "iterators are equal exactly at the same position");
    vx_check((copy < *orig) == (m > 0) && !(*orig < copy), "iterators are ordered by position");
    vx_check(copy <= *orig && (*orig <= copy) == (m == 0), "iterators are ordered by position (<=)");
    orig.reset();
    ari assigned{n + 3};
    assigned = copy;
    for (uint64_t i = 0; i < 4; ++i)
    {
        vx_check(*copy == *ref, "a copy continues with the same sequence");
        vx_check(*assigned == *ref, "an assigned iterator continues with the same sequence");
        vx_observe((*copy).x);
        ++copy;
        ++ref;
        ++assigned;
    }
}
VX_ENTRY(ari_postfix)
{
    const uint64_t n = vx_concretize(vx_range("n", 0, 13));
    const uint64_t k = vx_concretize(vx_range("k", 0, 5));
    ari            a{n}, b{n};
    for (uint64_t i = 0; i < k; ++i)
    {
        ++a;
        ++b;
    }
    const auto cur = *a;
    const auto old = b++;
    ++a;
    vx_check(*old == cur, "postfix increment returns the previous position");
    vx_check(*b == *a && b == a, "postfix and prefix increment reach the same position");
}

// ------------------------------------------------------------------ Gray code
VX_ENTRY(gray_step)
{
    const uint64_t     s = vx_u64("start");
    gray_code_iterator it{s};
    const uint64_t     g0 = *it;
    vx_check(it == s && !(it != s), "an iterator starts at the given number");
    const auto old = it++;
    const uint64_t g1 = *it;
    const uint64_t d  = g0 ^ g1;
    vx_check(d != 0 && (d & (d - 1)) == 0, "consecutive Gray codes differ in exactly one bit");
    vx_check(*old == g0, "postfix increment returns the old position");
    vx_check(it == s + 1, "increment moves by one");
    const auto old2 = it--;
    vx_check(*old2 == g1 && *it == g0 && it == s, "decrement undoes increment");
    --it;
    const uint64_t d2 = *it ^ g0;
    vx_check(d2 != 0 && (d2 & (d2 - 1)) == 0, "decrement moves to a Gray code one bit away");
    ++it;
    vx_check(*it == g0 && it == s, "increment undoes decrement");
    vx_observe(g0);
}
VX_ENTRY(gray_code)
{
    const uint64_t     s = vx_u64("a");
    const uint64_t     t = vx_u64("b");
    gray_code_iterator a{s};
    gray_code_iterator b{t};
    // decode: prefix xor from the top
    uint64_t n = *a;
    n ^= n >> 1;
    n ^= n >> 2;
    n ^= n >> 4;
    n ^= n >> 8;
    n ^= n >> 16;
    n ^= n >> 32;
    vx_check(n == s, "the Gray code determines the number");
    vx_check((*a == *b) == (s == t), "distinct numbers have distinct Gray codes");
    vx_check((a == b) == (s == t) && (a != b) == (s != t), "iterators are equal exactly at the same number");
    vx_check((a < b) == (s < t), "iterators are ordered by their number");
    vx_check((a <= b) == (s <= t), "iterators are ordered by their number (<=)");
    vx_check((a == t) == (s == t) && (a != t) == (s != t) && (a < t) == (s < t) && (a <= t) == (s <= t) && (a > t) == (s > t) && (a >= t) == (s >= t), "comparison with numbers");
    vx_check(a - b == static_cast<int64_t>(s - t), "the distance of two iterators is the difference of their numbers");
    gray_code_iterator c{s};
    c = t;
    vx_check(c == t && *c == *b, "assigning a number moves the iterator there");
    vx_check(a[t] == *gray_code_iterator{s + t}, "subscript yields the Gray code at an offset");
    vx_observe(*a);
}
VX_ENTRY(gray_jump)
{
    const uint64_t     s = vx_u64("s");
    const int          m = vx_i32("m");
    gray_code_iterator it{s};
    const uint64_t     target = s + static_cast<uint64_t>(static_cast<int64_t>(m));
    const auto         p      = it + m;
    vx_check(it == s, "addition does not move the iterator");
    vx_check(p == target && *p == *gray_code_iterator{target}, "addition moves by m");
    const auto q = p - m;
    vx_check(q == s && *q == *it, "subtraction undoes addition");
    it += m;
    vx_check(it == target && *it == *p, "compound addition moves by m");
    it -= m;
    vx_check(it == s && *it == *gray_code_iterator{s}, "compound subtraction undoes it");
    vx_check(p - it == static_cast<int64_t>(m), "distance matches the jump");
    // subscripts count from the number the iterator was created with, wherever it stands
    const std::size_t index = vx_u64("index");
    const uint64_t    code  = *gray_code_iterator{s + index};
    vx_check(p[index] == code && it[index] == code, "a subscript is the code at that position of the range");
    it = target;
    vx_check(it[index] == code, "assignment does not move the start of the range");
    ++it;
    vx_check(it[index] == code, "increments do not move the start of the range");
    --it;
    vx_check(it[index] == code && it == target, "decrements do not move the start of the range");
}
