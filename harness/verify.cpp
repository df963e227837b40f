// Equivalence checking and virtual miters.
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/verification/equivalence_checking.hpp>
#include <fiction/algorithms/verification/virtual_miter.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <fiction/types.hpp>

using namespace fiction;
using namespace nets;

namespace
{
using LYT = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using T   = tile<LYT>;

template <typename Ntk>
std::vector<typename Ntk::node> inputs(const Ntk& n)
{
    std::vector<typename Ntk::node> pis;
    n.foreach_pi([&](const auto& p) { pis.push_back(p); });
    return pis;
}
// whether the outputs of both agree under the given inputs
template <typename A, typename B>
std::uint8_t agree(const A& a, const B& b, const std::vector<std::uint8_t>& in)
{
    const auto   pa = inputs(a);
    const auto   pb = inputs(b);
    std::uint8_t ok = 1;
    for (unsigned i = 0; i < a.num_pos(); ++i)
        ok = static_cast<std::uint8_t>(ok & (1u ^ static_cast<std::uint8_t>(eval(a, a.get_node(a.po_at(i)), pa, in)) ^ static_cast<std::uint8_t>(eval(b, b.get_node(b.po_at(i)), pb, in))));
    return ok;
}
// the verdict matches the functions; returns whether they are equivalent
template <bool Comparable = true, typename A, typename B>
bool check_verdict(const A& a, const B& b, const eq_type eq, const equivalence_checking_stats& st, const std::vector<std::uint8_t>& in)
{
    vx_check(st.eq == eq, "the verdict is part of the statistics");
    if constexpr (!Comparable)
    if (a.num_pis() != b.num_pis() || a.num_pos() != b.num_pos())
    {
        vx_check(eq == eq_type::NO, "networks of different inputs and outputs are not equivalent");
        vx_reach("incomparable");
        return false;
    }
    if (eq == eq_type::NO)
    {
        vx_check(st.counter_example.size() == a.num_pis(), "a counterexample assigns all inputs");
        std::vector<std::uint8_t> ce;
        for (const auto x : st.counter_example)
            ce.push_back(x);
        vx_check(agree(a, b, ce) == 0, "the counterexample distinguishes the functions");
        vx_reach("not equivalent");
        return false;
    }
    std::vector<std::uint8_t> bits{in.begin(), in.begin() + a.num_pis()};
    vx_check(agree(a, b, bits) != 0, "equivalent networks compute the same function");
    vx_check(st.counter_example.empty(), "there is no counterexample to an equivalence");
    vx_reach("equivalent");
    return true;
}
std::vector<std::uint8_t> free_bits(unsigned n)
{
    std::vector<std::uint8_t> in;
    for (unsigned i = 0; i < n; ++i)
        in.push_back(static_cast<std::uint8_t>(vx_bool(nm("free", i))));
    return in;
}
}  // namespace

VX_ENTRY(eq_networks)
{
    const auto in = free_bits(2);
    const auto a  = make<TEC>({.max_pi = 2, .gates = 2, .pos = 1, .types = VX_B(1u << NOT | 1u << LT, 1u << NOT | 1u << AND | 1u << LT | 1u << XOR)});
    const auto b  = make<TEC>({.max_pi = 2, .gates = 2, .pos = VX_B(1u, 2u), .types = VX_B(1u << AND | 1u << NOT, 1u << BUF | 1u << GE | 1u << NOT)});
    equivalence_checking_stats st{};
    const auto                 eq = equivalence_checking(a.ntk, b.ntk, &st);
    if (check_verdict<false>(a.ntk, b.ntk, eq, st, in))
        vx_check(eq == eq_type::STRONG && st.tp_diff == 0, "equivalent networks are strongly equivalent");
}
VX_ENTRY(eq_outputs)
{
    const auto in = free_bits(2);
    const auto a  = make<TEC>({.min_pi = 2, .max_pi = 2, .gates = 1, .pos = 2, .types = 1u << LT | 1u << NOT});
    const auto b  = make<TEC>({.min_pi = 2, .max_pi = 2, .gates = 1, .pos = VX_B(2u, 3u), .types = 1u << LT | 1u << NOT});
    equivalence_checking_stats st{};
    const auto                 eq = equivalence_checking(a.ntk, b.ntk, &st);
    check_verdict<false>(a.ntk, b.ntk, eq, st, in);
    vx_check(eq == equivalence_checking(b.ntk, a.ntk), "the verdict does not depend on the order");
}
VX_ENTRY(eq_layouts)
{
    const auto in = free_bits(2);
    const auto a  = make<NAM>({.max_pi = 2, .gates = 2, .pos = 1, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
    const auto b  = make<NAM>({.max_pi = 2, .gates = VX_B(1u, 2u), .pos = 2, .types = 1u << AND | 1u << LT | 1u << NOT, .free_pi = false, .distinct = true});
    const auto l  = orthogonal<LYT>(a.ntk);
    equivalence_checking_stats st{};
    eq_type                    eq{};
    switch (pick("roles", 0, 2))
    {
        case 0: eq = equivalence_checking(b.ntk, l, &st); break;
        case 1: eq = equivalence_checking(l, b.ntk, &st); break;
        default: eq = equivalence_checking(l, orthogonal<LYT>(b.ntk), &st); break;
    }
    vx_check(st.spec_drv_stats.drvs == 0 && st.impl_drv_stats.drvs == 0, "orthogonal layouts violate no design rules");
    if (check_verdict<false>(a.ntk, b.ntk, eq, st, in))
        vx_check(eq == eq_type::STRONG && st.tp_spec == 1 && st.tp_impl == 1 && st.tp_diff == 0, "layouts of full throughput are strongly equivalent");
}

namespace
{
// two wires of the given lengths lead to a gate; `fault` breaks a design rule
LYT joined(unsigned M, unsigned a, unsigned b, bool lt, unsigned fault)
{
    LYT        l{{M + 3, M + 1}, open_clocking<LYT>(num_clks::FOUR)};
    const auto zone = [&](unsigned d) { return static_cast<typename LYT::clock_number_t>((60 - d) % 4); };
    const T    g{M, M};
    l.assign_clock_number(g, zone(0));
    auto s = l.create_pi("a", {M - a, M});
    l.assign_clock_number({M - a, M}, zone(a));
    for (unsigned d = a - 1; d > 0; --d)
    {
        l.assign_clock_number({M - d, M}, zone(d));
        s = l.create_buf(s, {M - d, M});
    }
    auto r = l.create_pi("b", {M, M - b});
    l.assign_clock_number({M, M - b}, zone(b));
    for (unsigned d = b - 1; d > 0; --d)
    {
        l.assign_clock_number({M, M - d}, zone(d));
        r = l.create_buf(r, {M, M - d});
    }
    auto o = lt ? l.create_lt(s, r, g) : l.create_and(s, r, g);
    const T po{fault == 1 ? M + 2 : M + 1, M};  // too far away
    l.assign_clock_number(po, static_cast<typename LYT::clock_number_t>(fault == 2 ? 2 : 1));  // in a wrong zone
    l.create_po(o, "o", po);
    if (fault == 3)
        l.create_buf(static_cast<mockturtle::signal<LYT>>(po), {0, 0});  // a wire that leads nowhere
    return l;
}
}  // namespace
VX_ENTRY(eq_throughput)
{
    const unsigned M = VX_B(6u, 9u);
    const auto     a = pick("a", 1, M), b = pick("b", 1, M);
    // cycles that pass between the arrivals of signals applied in the same one
    const auto     cycles = [](unsigned u, unsigned v) { u = (u + 3) / 4, v = (v + 3) / 4; return u > v ? u - v : v - u; };
    const auto     tp     = cycles(a, b) + 1;
    const bool     lt = pick("lt", 0, 1), other = pick("other", 0, 1);
    const auto     l = joined(M, a, b, lt, 0);
    const auto     in = free_bits(2);
    TEC            n;
    const auto     x = n.create_pi(), y = n.create_pi();
    n.create_po(other ? n.create_lt(x, y) : n.create_and(x, y));
    equivalence_checking_stats st{};
    switch (pick("roles", 0, 2))
    {
        case 0:
        {
            const auto eq = equivalence_checking(n, l, &st);
            if (check_verdict(n, l, eq, st, in))
                vx_check(eq == (tp == 1 ? eq_type::STRONG : eq_type::WEAK) && st.tp_spec == 1 && st.tp_impl == tp && st.tp_diff == tp - 1, "implementations of lower throughput are weakly equivalent");
            break;
        }
        case 1:
        {
            const auto eq = equivalence_checking(l, n, &st);
            if (check_verdict(l, n, eq, st, in))
                vx_check(eq == (tp == 1 ? eq_type::STRONG : eq_type::WEAK) && st.tp_spec == tp && st.tp_impl == 1 && st.tp_diff == tp - 1, "implementations of higher throughput are weakly equivalent");
            break;
        }
        default:
        {
            const unsigned c   = pick("c", 1, 5);
            const auto     tp2 = cycles(c, 1) + 1;
            const auto     m   = joined(6, c, 1, other, 0);
            const auto     eq  = equivalence_checking(l, m, &st);
            if (check_verdict(l, m, eq, st, in))
            {
                vx_check(st.tp_spec == tp && st.tp_impl == tp2 && st.tp_diff == (tp > tp2 ? tp - tp2 : tp2 - tp), "the throughputs of both layouts are stated");
                vx_check(tp == tp2 || eq == eq_type::WEAK, "layouts of different throughput are weakly equivalent");
                vx_check(tp != 1 || tp2 != 1 || eq == eq_type::STRONG, "layouts of full throughput are strongly equivalent");
            }
        }
    }
}
VX_ENTRY(eq_rules)
{
    const auto a = pick("a", 1, 2), b = pick("b", 1, 2), f = pick("fault", 1, 3);
    const auto l = joined(3, a, b, false, f), ok = joined(3, 1, 1, false, 0);
    TEC        n;
    const auto x = n.create_pi(), y = n.create_pi();
    n.create_po(n.create_and(x, y));
    equivalence_checking_stats st{}, st2{}, st3{};
    vx_check(equivalence_checking(n, l, &st) == eq_type::NO && st.eq == eq_type::NO && st.impl_drv_stats.drvs > 0, "layouts that violate design rules are not equivalent to anything");
    vx_check(equivalence_checking(l, n, &st2) == eq_type::NO && st2.eq == eq_type::NO && st2.spec_drv_stats.drvs > 0, "specifications that violate design rules are not equivalent to anything");
    vx_check(equivalence_checking(ok, l, &st3) == eq_type::NO && st3.impl_drv_stats.drvs > 0 && st3.spec_drv_stats.drvs == 0, "violations are attributed to the layout at fault");
    vx_reach("violated");
}

namespace
{
using V = virtual_pi_network<TEC>;
struct vnet
{
    V                         v;
    std::vector<V::node>      pis;
    std::vector<unsigned>     of;  // the real input of each
    std::vector<V::node>      out;
};
vnet make_virtual(unsigned max_virtual, unsigned outs)
{
    vnet                 r;
    std::vector<V::node> all;
    const auto           np = pick("real", 1, 2), nv = pick("virtual", 0, max_virtual);
    std::vector<V::node> real;
    const auto           early = pick("early", 0, nv > 0 && np > 1 ? 1 : 0);
    unsigned             made  = 0;
    const auto add = [&]
    {
        const auto o = pick("of", 0, static_cast<unsigned>(real.size()) - 1);
        r.pis.push_back(r.v.create_virtual_pi(real[o]));
        r.of.push_back(o);
        ++made;
    };
    for (unsigned i = 0; i < np; ++i)
    {
        real.push_back(r.v.create_pi());
        r.pis.push_back(real.back());
        r.of.push_back(i);
        if (early && i == 0)
            add();
    }
    while (made < nv)
        add();
    all            = r.pis;
    const auto n   = static_cast<unsigned>(all.size());
    const auto lt  = pick("lt", 0, 1);
    const auto a   = pick("fa", 0, n - 1), b = lt ? pick("fb", 0, n - 1) : 0;
    all.push_back(lt ? r.v.create_lt(all[a], all[b]) : r.v.create_not(all[a]));
    r.v.create_po(all.back());
    r.out.push_back(all.back());
    if (pick("outs", 1, outs) > 1)
    {
        const auto o = pick("po", 0, n);
        r.v.create_po(all[o]);
        r.out.push_back(all[o]);
    }
    return r;
}
template <typename Dest>
void check_miter(const vnet& a, const vnet& b, const std::vector<std::uint8_t>& in)
{
    const auto m = virtual_miter<Dest>(a.v, b.v);
    const bool comparable = a.v.num_real_pis() == b.v.num_real_pis() && a.out.size() == b.out.size();
    vx_check(m.has_value() == comparable, "there is a miter for networks of the same number of inputs and outputs");
    if (!m)
        return;
    vx_check(m->num_pis() == a.v.num_real_pis() && m->num_pos() == 1, "the miter has the real inputs and one output");
    std::vector<std::uint8_t> ba, bb;
    for (auto o : a.of)
        ba.push_back(in[o]);
    for (auto o : b.of)
        bb.push_back(in[o]);
    std::uint8_t differ = 0;
    for (std::size_t i = 0; i < a.out.size(); ++i)
        differ = static_cast<std::uint8_t>(differ | (static_cast<std::uint8_t>(eval(a.v, a.out[i], a.pis, ba)) ^ static_cast<std::uint8_t>(eval(b.v, b.out[i], b.pis, bb))));
    vx_check(eval(*m, m->get_node(m->po_at(0)), inputs(*m), {in.begin(), in.begin() + m->num_pis()}) == (differ != 0), "the miter is true exactly where the functions differ");
    vx_reach("miter");
}
}  // namespace
VX_ENTRY(vm_virtual)
{
    const auto in = free_bits(2);
    const auto a = make_virtual(VX_B(1u, 2u), 1), b = make_virtual(1, 1);
    check_miter<TEC>(a, b, in);
}
VX_ENTRY(vm_outputs)
{
    const auto in = free_bits(2);
    const auto a = make_virtual(0, 2), b = make_virtual(VX_B(0u, 1u), 2);
    check_miter<mockturtle::klut_network>(a, b, in);
}
