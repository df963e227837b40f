// Truth tables of the named functions.
#include "vx.h"
#include <fiction/utils/truth_table_utils.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <cstdint>
#include <vector>
using namespace fiction;
namespace
{
using tt = kitty::dynamic_truth_table;
struct row
{
    tt (*make)() noexcept;
    unsigned vars;
    bool (*f)(bool, bool, bool);
    const char* name;
};
// the operands of comparisons are numbered from the most significant input
const row rows[] = {
    {create_id_tt, 1, [](bool a, bool, bool) -> bool { return a; }, "identity"},
    {create_not_tt, 1, [](bool a, bool, bool) -> bool { return !a; }, "not"},
    {create_and_tt, 2, [](bool a, bool b, bool) -> bool { return (a & b); }, "and"},
    {create_or_tt, 2, [](bool a, bool b, bool) -> bool { return (a | b); }, "or"},
    {create_nand_tt, 2, [](bool a, bool b, bool) -> bool { return !(a & b); }, "nand"},
    {create_nor_tt, 2, [](bool a, bool b, bool) -> bool { return !(a | b); }, "nor"},
    {create_xor_tt, 2, [](bool a, bool b, bool) -> bool { return a != b; }, "xor"},
    {create_xnor_tt, 2, [](bool a, bool b, bool) -> bool { return a == b; }, "xnor"},
    {create_lt_tt, 2, [](bool a, bool b, bool) -> bool { return b < a; }, "less than"},
    {create_gt_tt, 2, [](bool a, bool b, bool) -> bool { return b > a; }, "greater than"},
    {create_le_tt, 2, [](bool a, bool b, bool) -> bool { return b <= a; }, "less or equal"},
    {create_ge_tt, 2, [](bool a, bool b, bool) -> bool { return b >= a; }, "greater or equal"},
    {create_and3_tt, 3, [](bool a, bool b, bool c) -> bool { return (a & b & c); }, "and3"},
    {create_xor_and_tt, 3, [](bool a, bool b, bool c) -> bool { return (a & (b != c)); }, "xor-and"},
    {create_or_and_tt, 3, [](bool a, bool b, bool c) -> bool { return (a & (b | c)); }, "or-and"},
    {create_onehot_tt, 3, [](bool a, bool b, bool c) -> bool { return a + b + c == 1; }, "onehot"},
    {create_maj_tt, 3, [](bool a, bool b, bool c) -> bool { return a + b + c >= 2; }, "majority"},
    {create_gamble_tt, 3, [](bool a, bool b, bool c) -> bool { return (a == b) & (b == c); }, "gamble"},
    {create_dot_tt, 3, [](bool a, bool b, bool c) -> bool { return a != (c | (a & b)); }, "dot"},
    {create_ite_tt, 3, [](bool a, bool b, bool c) -> bool { return (a & b) | (!a & c); }, "if-then-else"},
    {create_and_xor_tt, 3, [](bool a, bool b, bool c) -> bool { return a != (b & c); }, "and-xor"},
    {create_xor3_tt, 3, [](bool a, bool b, bool c) -> bool { return (a != b) != c; }, "xor3"},
};
constexpr std::size_t N = sizeof(rows) / sizeof(rows[0]);
}  // namespace
VX_ENTRY(tt_functions)
{
    // every table has the value of its function for every input, and nothing else
    const bool     a = vx_bool("a"), b = vx_bool("b"), c = vx_bool("c");
    const unsigned i = (a ? 1u : 0u) | (b ? 2u : 0u) | (c ? 4u : 0u);
    for (std::size_t k = 0; k < N; ++k)
    {
        const tt t = rows[k].make();
        vx_check(t.num_vars() == static_cast<int>(rows[k].vars), "the number of inputs of a function");
        const unsigned idx = i & ((1u << rows[k].vars) - 1u);
        const auto     got = kitty::get_bit(t, idx) != 0;
        const bool     x = (idx & 1u) != 0, y = (idx & 2u) != 0, z = (idx & 4u) != 0;
        vx_check(got == rows[k].f(x, y, z), rows[k].name);
        vx_check((t._bits[0] >> (1u << rows[k].vars)) == 0, "tables are normalised");
    }
}
VX_ENTRY(tt_multi)
{
    const bool     a = vx_bool("a"), b = vx_bool("b");
    const unsigned i = (a ? 1u : 0u) | (b ? 2u : 0u);
    const auto     at = [](const tt& t, unsigned k) { return kitty::get_bit(t, k) != 0; };
    const auto     dw = create_double_wire_tt(), cx = create_crossing_wire_tt(), fo = create_fan_out_tt(), ha = create_half_adder_tt();
    vx_check(dw.size() == 2 && cx.size() == 2 && fo.size() == 2 && ha.size() == 2, "two outputs each");
    vx_check(dw[0].num_vars() == 2 && cx[0].num_vars() == 2 && fo[0].num_vars() == 1 && ha[0].num_vars() == 2, "the number of inputs");
    vx_check(dw[1].num_vars() == 2 && cx[1].num_vars() == 2 && fo[1].num_vars() == 1 && ha[1].num_vars() == 2, "the number of inputs");
    vx_check(at(dw[0], i) == b && at(dw[1], i) == a, "a double wire keeps the order of its inputs");
    vx_check(at(cx[0], i) == a && at(cx[1], i) == b, "a crossing swaps the order of its inputs");
    vx_check(at(fo[0], a ? 1u : 0u) == a && at(fo[1], a ? 1u : 0u) == a, "both branches of a fan-out are its input");
    vx_check(at(ha[0], i) == (a != b) && at(ha[1], i) == (a && b), "a half adder is sum and carry");
}
VX_ENTRY(tt_evaluate)
{
    // output bit k is table k at the given input
    const auto n = static_cast<std::size_t>(vx_concretize(vx_range("n", 0, VX_B(8, 64))));
    const auto v = static_cast<unsigned>(vx_concretize(vx_range("vars", 0, VX_B(4, 8))));
    std::vector<tt> ts;
    std::uint64_t   words[4] = {vx_u64("w0"), vx_u64("w1"), vx_u64("w2"), vx_u64("w3")};
    for (std::size_t k = 0; k < n; ++k)
    {
        tt t{v};
        for (auto& w : t._bits)
        {
            w = words[k % 4] ^ (0x9e3779b97f4a7c15ull * k);
            if (v < 6)
                w &= (std::uint64_t{1} << (1u << v)) - 1;
        }
        ts.push_back(t);
    }
    const auto idx = vx_range("index", 0, (std::uint64_t{1} << v) - 1);
    const auto got = evaluate_output(ts, idx);
    std::uint64_t want = 0;
    for (std::size_t k = 0; k < n; ++k)
        want |= static_cast<std::uint64_t>(kitty::get_bit(ts[k], idx) != 0) << k;
    vx_check(got == want, "bit k of the output is the value of table k");
}
