// Technology networks, their transformations and views.
#include "nets_gen.h"

#include <fiction/algorithms/network_transformation/delete_virtual_pis.hpp>
#include <fiction/algorithms/network_transformation/fanout_substitution.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/algorithms/network_transformation/network_conversion.hpp>
#include <fiction/networks/views/bfs_topo_view.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/networks/views/static_depth_view.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <fiction/utils/network_utils.hpp>
#include <mockturtle/views/fanout_view.hpp>

#include <algorithm>
#include <random>

using namespace fiction;
using namespace nets;

// random choices of RANDOM fanout trees are arbitrary
template <>
template <>
std::size_t std::uniform_int_distribution<std::size_t>::operator()(std::mt19937&)
{
    static unsigned k = 0;
    return vx_concretize(vx_range(nm("choice", k++), a(), b()));
}

namespace
{
template <typename N>
unsigned matches(const N& n, std::uint64_t x)
{
    return static_cast<unsigned>(n.is_buf(x)) | n.is_inv(x) << 1 | n.is_and(x) << 2 | n.is_nand(x) << 3 | n.is_or(x) << 4 | n.is_nor(x) << 5 | n.is_lt(x) << 6 | n.is_ge(x) << 7 | n.is_gt(x) << 8 | n.is_le(x) << 9 | n.is_xor(x) << 10 |
           n.is_xnor(x) << 11 | n.is_maj(x) << 12 | n.is_ite(x) << 13 | n.is_xor3(x) << 14 | n.is_dot(x) << 15 | n.is_and3(x) << 16 | n.is_xor_and(x) << 17 | n.is_or_and(x) << 18 | n.is_onehot(x) << 19 | n.is_gamble(x) << 20 |
           n.is_and_xor(x) << 21;
}
// the functions of three inputs by their documented names; a is the first one
unsigned named3(unsigned k, unsigned a, unsigned b, unsigned c)
{
    switch (k)
    {
        case 12: return a + b + c >= 2;
        case 13: return a ? b : c;
        case 14: return a ^ b ^ c;
        case 15: return a ^ (c | (a & b));
        case 16: return a & b & c;
        case 17: return a & (b ^ c);
        case 18: return a & (b | c);
        case 19: return a + b + c == 1;
        case 20: return a == b && b == c;
        default: return a ^ (b & c);
    }
}
}  // namespace

VX_ENTRY(nt_create)
{
    TEC        n;
    const auto a = n.create_pi(), b = n.create_pi(), c = n.create_pi();
    std::vector<std::uint64_t> pis{a, b, c};
    const std::uint8_t va = vx_bool("a"), vb = vx_bool("b"), vc = vx_bool("c");
    const auto         k = pick("function", 0, 16);
    std::uint64_t      g = 0;
    unsigned           want = 0, fi = 2, id = 0;
    std::uint8_t       tie = 1;
    switch (k)
    {
        case 0: g = n.create_buf(a); want = va; fi = 1; id = 0; break;
        case 1: g = n.create_not(a); want = va ^ 1u; fi = 1; id = 1; break;
        case 2: g = n.create_and(a, b); want = va & vb; id = 2; break;
        case 3: g = n.create_nand(a, b); want = (va & vb) ^ 1u; id = 3; break;
        case 4: g = n.create_or(a, b); want = va | vb; id = 4; break;
        case 5: g = n.create_nor(a, b); want = (va | vb) ^ 1u; id = 5; break;
        // comparisons as tabulated: the second operand is the left-hand side
        case 6: g = n.create_lt(a, b); want = va & (vb ^ 1u); id = 6; break;
        case 7: g = n.create_ge(a, b); want = (va & (vb ^ 1u)) ^ 1u; id = 7; break;
        case 8: g = n.create_gt(a, b); want = (va ^ 1u) & vb; id = 8; break;
        case 9: g = n.create_le(a, b); want = ((va ^ 1u) & vb) ^ 1u; id = 9; break;
        case 10: g = n.create_xor(a, b); want = va ^ vb; id = 10; break;
        case 11: g = n.create_xnor(a, b); want = va ^ vb ^ 1u; id = 11; break;
        case 12: g = n.create_maj(a, b, c); want = (va & vb) | (va & vc) | (vb & vc); fi = 3; id = 12; break;
        case 13: g = n.create_ite(a, b, c); want = (va & vb) | ((va ^ 1u) & vc); fi = 3; id = 13; break;
        case 14: g = n.create_xor3(a, b, c); want = va ^ vb ^ vc; fi = 3; id = 14; break;
        case 15: g = n.create_dot(a, b, c); want = va ^ (vc | (va & vb)); fi = 3; id = 15; tie = 1; break;
        default: g = n.create_not(n.get_constant(va != 0)); break;
    }
    if (k == 16)
    {
        vx_check(n.is_constant(g) && n.constant_value(g) == (va == 0), "the complement of a constant is the other constant");
        return;
    }
    n.create_po(g);
    vx_check(tie != 0 && eval(n, g, pis, {va, vb, vc}) == (want != 0), "a created gate computes its function");
    vx_check(matches(n, g) == (1u << id), "exactly the predicate of its function holds for a gate");
    vx_check(n.fanin_size(g) == fi && n.fanout_size(g) == 1 && n.is_po(g) && !n.is_pi(g) && n.is_function(g), "a gate has its fanins and its output");
    vx_check(n.fanout_size(a) == 1 && n.fanout_size(b) == (fi > 1) && n.fanout_size(c) == (fi > 2), "fanins count their fanouts");
    bool no = true;
    for (auto p : pis)
        no = no && (matches(n, p) & ~1u) == 0 && !n.is_buf(p) && !n.is_fanout(p) && n.is_pi(p) && !n.is_po(p);
    vx_check(no, "inputs are no gates");
    TEC d = n.clone();
    const auto e = d.create_and(a, g);
    d.create_po(e);
    vx_check(n.size() + 1 == d.size() && n.num_pos() == 1 && d.num_pos() == 2 && n.fanout_size(g) == 1, "a clone is independent");
    vx_reach("gate created");
}

VX_ENTRY(nt_nary)
{
    TEC        n;
    const auto w = pick("width", 0, 5), k = pick("function", 0, 2);
    std::vector<std::uint64_t> pis;
    std::vector<std::uint8_t>  in;
    for (unsigned i = 0; i < w; ++i)
    {
        pis.push_back(n.create_pi());
        in.push_back(vx_bool(nm("b", i)));
    }
    const auto   g = k == 0 ? n.create_nary_and(pis) : k == 1 ? n.create_nary_or(pis) : n.create_nary_xor(pis);
    std::uint8_t want = k == 0;
    for (auto v : in)
        want = static_cast<std::uint8_t>(k == 0 ? want & v : k == 1 ? want | v : want ^ v);
    vx_check(eval(n, g, pis, in) == (want != 0), "gates of many inputs compute their function");
    vx_check(n.num_gates() == (w > 0 ? w - 1 : 0), "they consist of two-input gates");
    vx_reach("n-ary gate");
}

VX_ENTRY(nt_function)
{
    TEC        n;
    const auto a = n.create_pi(), b = n.create_pi(), c = n.create_pi();
    const auto nv = pick("vars", 1, 3);
    const auto bits = pick("table", 0, nv == 1 ? 3 : nv == 2 ? 15 : 255);
    kitty::dynamic_truth_table tt(nv);
    std::uint64_t              w = bits;
    kitty::create_from_words(tt, &w, &w + 1);
    const auto g = n.create_node(nv == 1 ? std::vector<std::uint64_t>{a} : nv == 2 ? std::vector<std::uint64_t>{a, b} : std::vector<std::uint64_t>{a, b, c}, tt);
    vx_check(n.node_function(g) == tt, "a gate has the given function");
    const auto m  = matches(n, g);
    unsigned   id = 0;
    if (nv == 1)
        id = bits == 2 ? 1 : bits == 1 ? 2 : 0;
    else if (nv == 2)
    {
        static const unsigned t[10] = {0x8, 0x7, 0xe, 0x1, 0x2, 0xd, 0x4, 0xb, 0x6, 0x9};
        for (unsigned i = 0; i < 10; ++i)
            id |= (bits == t[i]) << (i + 2);
    }
    else
        for (unsigned i = 12; i < 22; ++i)
        {
            unsigned f = 0;
            for (unsigned x = 0; x < 8; ++x)
                f |= named3(i, x & 1, (x >> 1) & 1, x >> 2) << x;
            id |= (bits == f) << i;
        }
    vx_check(m == id, "predicates recognise exactly their functions");
    const auto h = n.clone_node(n, g, nv == 1 ? std::vector<std::uint64_t>{b} : nv == 2 ? std::vector<std::uint64_t>{b, a} : std::vector<std::uint64_t>{b, c, a});
    vx_check(n.node_function(h) == tt && h != g, "a cloned gate has the function of its source");
    TEC other;
    const auto x = other.create_pi();
    const auto o = other.clone_node(n, g, std::vector<std::uint64_t>(nv, x));
    vx_check(other.node_function(o) == tt && matches(other, o) == id, "a gate cloned into another network has the function of its source");
    vx_reach("function created");
}

VX_ENTRY(nt_po_signals)
{
    auto n = make<TEC>({.max_pi = 2, .gates = 2, .pos = 3, .types = 1u << NOT | 1u << BUF | 1u << AND});
    const auto before = n.ntk.num_gates();
    n.ntk.substitute_po_signals();
    vx_check(n.ntk.num_gates() <= before + n.outs.size(), "at most one buffer per output is added");
    bool     ok = true;
    std::vector<std::uint64_t> drivers;
    n.ntk.foreach_po([&](const auto& po) { ok = ok && n.ntk.is_buf(n.ntk.get_node(po)) && !n.ntk.is_fanout(n.ntk.get_node(po)); drivers.push_back(po); });
    vx_check(ok, "every output is driven by a buffer of its own");
    std::sort(drivers.begin(), drivers.end());
    vx_check(std::adjacent_find(drivers.begin(), drivers.end()) == drivers.end(), "no two outputs share a driver");
    std::vector<unsigned> fo(n.ntk.size(), 0);
    n.ntk.foreach_node([&](const auto& x) { n.ntk.foreach_fanin(x, [&](const auto& f) { ++fo[f]; }); });
    n.ntk.foreach_po([&](const auto& po) { ++fo[po]; });
    n.ntk.foreach_node([&](const auto& x) { ok = ok && (n.ntk.is_constant(x) || fo[x] == n.ntk.fanout_size(x)); });
    vx_check(ok, "fanout counts are exact");
    check_same_function(n, n.ntk, n.in);
    vx_reach("substituted");
}

namespace
{
template <typename N>
void fanout_counts(const N& ntk, const fanout_substitution_params& ps, bool& ok)
{
    std::vector<unsigned> fo(ntk.size(), 0);
    ntk.foreach_node([&](const auto& x) { ntk.foreach_fanin(x, [&](const auto& f) { ++fo[ntk.get_node(f)]; }); });
    ntk.foreach_po([&](const auto& po) { ++fo[ntk.get_node(po)]; });
    ok = true;
    ntk.foreach_node(
        [&](const auto& x)
        {
            if (!ntk.is_constant(x))
                ok = ok && fo[x] <= (ntk.is_fanout(x) ? ps.degree : ps.threshold);
        });
}
template <typename Dest, typename Src, bool random = false>
void fanout_case(const spec& s)
{
    const auto                 n = make<Src>(s);
    fanout_substitution_params ps{};
    ps.strategy  = random ? fanout_substitution_params::substitution_strategy::RANDOM : pick("strategy", 0, 1) ? fanout_substitution_params::substitution_strategy::DEPTH : fanout_substitution_params::substitution_strategy::BREADTH;
    ps.degree    = pick("degree", 2, 3);
    ps.threshold = pick("threshold", 1, ps.degree);
    const auto size0 = n.ntk.size();
    bool       exact;
    fanout_counts(n.ntk, ps, exact);
    vx_check(is_fanout_substituted(n.ntk, ps) == exact, "the predicate decides the bounds on fanouts");
    const auto r = fanout_substitution<Dest>(n.ntk, ps);
    vx_check(is_fanout_substituted(r, ps), "the result is fanout-substituted");
    bool ok;
    fanout_counts(r, ps, ok);
    vx_check(ok, "all fanouts of the result are bounded");
    check_same_function(n, r, std::is_same_v<Dest, Src> ? used_bits(n) : n.in);
    vx_check(n.ntk.size() == size0, "the source is left alone");
    if constexpr (mockturtle::has_set_name_v<Dest> && mockturtle::has_set_name_v<Src>)
        check_names(n, r);
    if constexpr (!random)
        vx_check(!exact || r.num_gates() <= n.ntk.num_gates(), "nothing is added to a fanout-substituted network");
    vx_reach("substituted");
}
}  // namespace

VX_ENTRY(nt_fanout)
{
    fanout_case<TEC, TEC>({.max_pi = 2, .gates = VX_B(3u, 3u), .pos = 2, .types = VX_B(1u << NOT | 1u << BUF | 1u << AND, 1u << NOT | 1u << BUF | 1u << AND | 1u << LT)});
}
VX_ENTRY(nt_fanout_high)
{
    fanout_case<TEC, TEC>({.max_pi = 1, .gates = 2, .pos = 5, .types = 1u << NOT | 1u << BUF | 1u << MAJ});
}
VX_ENTRY(nt_fanout_names)
{
    fanout_case<NAM, NAM>({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << BUF | 1u << LT, .constants = true});
}
VX_ENTRY(nt_fanout_random)
{
    fanout_case<TEC, TEC, true>({.max_pi = 1, .gates = 2, .pos = 4, .types = 1u << NOT | 1u << AND});
}

namespace
{
template <typename N>
std::vector<unsigned> levels_of(const N& ntk)
{
    std::vector<unsigned> l(ntk.size(), 0);
    ntk.foreach_node([&](const auto& x) { if (!ntk.is_constant(x)) ntk.foreach_fanin(x, [&](const auto& f) { l[x] = std::max(l[x], l[ntk.get_node(f)] + 1); }); });
    return l;
}
template <typename Dest, typename Src>
void balance_case(const spec& s)
{
    const auto               n = make<Src>(s);
    network_balancing_params ps{pick("unify", 0, 1) == 1};
    const auto exact = [&](const auto& ntk)
    {
        const auto l  = levels_of(ntk);
        bool       ok = true;
        ntk.foreach_gate([&](const auto& x) { ntk.foreach_fanin(x, [&](const auto& f) { ok = ok && (ntk.is_constant(f) || l[f] + 1 == l[x]); }); });
        if (ps.unify_outputs)
            ntk.foreach_po([&](const auto& po) { ok = ok && l[po] == l[ntk.po_at(0)]; });
        return ok;
    };
    vx_check(is_balanced(n.ntk, ps) == exact(n.ntk), "the predicate decides whether a network is balanced");
    const auto r = network_balancing<Dest>(n.ntk, ps);
    vx_check(is_balanced(r, ps) && exact(r), "the result is balanced");
    check_same_function(n, r, std::is_same_v<Dest, Src> ? used_bits(n) : n.in);
    const auto l0 = levels_of(n.ntk), l1 = levels_of(r);
    vx_check(*std::max_element(l0.begin(), l0.end()) == *std::max_element(l1.begin(), l1.end()), "balancing does not deepen the network");
    if constexpr (mockturtle::has_set_name_v<Dest> && mockturtle::has_set_name_v<Src>)
        check_names(n, r);
    vx_reach("balanced");
}
}  // namespace
VX_ENTRY(nt_balance)
{
    balance_case<TEC, TEC>({.max_pi = 2, .gates = 3, .pos = 2, .types = VX_B(1u << NOT | 1u << AND, 1u << NOT | 1u << AND | 1u << LT | 1u << MAJ)});
}
VX_ENTRY(nt_balance_names)
{
    balance_case<NAM, NAM>({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << BUF | 1u << LT, .constants = true});
}
VX_ENTRY(nt_no_outputs)
{
    TEC        n;
    const auto a = n.create_pi();
    if (vx_bool("gate"))
        n.create_not(a);
    const auto r = network_balancing<TEC>(n, {vx_bool("unify")});
    vx_check(r.num_pos() == 0, "networks without outputs can be balanced");
    const auto f = fanout_substitution<TEC>(n);
    vx_check(f.num_pos() == 0, "networks without outputs can be fanout-substituted");
    vx_reach("no outputs");
}

VX_ENTRY(nt_convert)
{
    const auto n = make<NAM>({.max_pi = 2, .gates = VX_B(2u, 3u), .pos = 2, .types = VX_B(0xffu, 1u << BUF | 1u << GE | 1u << AND), .constants = true});
    switch (pick("target", 0, 2))
    {
        case 0:
        {
            const auto r = convert_network<TEC>(n.ntk);
            check_same_function(n, r, n.in);
            break;
        }
        case 1:
        {
            const auto r = convert_network<NAM>(n.ntk);
            check_same_function(n, r, used_bits(n));
            check_names(n, r);
            break;
        }
        default:
        {
            const auto r = convert_network<mockturtle::klut_network>(n.ntk);
            check_same_function(n, r, n.in);
        }
    }
    vx_reach("converted");
}

VX_ENTRY(nt_virtual)
{
    // two real inputs, up to two virtual copies of them created at any time, up to two gates and two outputs
    using V = virtual_pi_network<NAM>;
    V                          v;
    std::vector<std::uint64_t> sig, real;
    std::vector<std::uint8_t>  bits, in;
    const auto                 order = pick("order", 0, 2);  // where the first virtual input is created
    unsigned                   nv    = 0;
    const auto add_virtual = [&]
    {
        const auto of = pick(nm("of", nv), 0, static_cast<unsigned>(real.size()) - 1);
        const auto s  = v.create_virtual_pi(real[of]);
        vx_check(v.is_virtual_pi(s) && !v.is_real_pi(s) && v.get_real_pi(s) == real[of] && v.is_pi(s), "a virtual input belongs to its real input");
        sig.push_back(s);
        bits.push_back(in[of]);
        ++nv;
    };
    for (unsigned i = 0; i < 2; ++i)
    {
        in.push_back(vx_bool(nm("bit", i)));
        real.push_back(v.create_pi("in" + std::to_string(i)));
        sig.push_back(real.back());
        bits.push_back(in.back());
        if (order == i)
            add_virtual();
    }
    if (pick("second", 0, 1))
        add_virtual();
    const auto ng = pick("gates", 0, 2);
    std::vector<std::uint64_t> all = sig;
    std::vector<std::uint64_t> pis = sig;
    for (unsigned g = 0; g < ng; ++g)
    {
        const auto a = pick(nm("fa", g), 0, static_cast<unsigned>(all.size()) - 1), b = pick(nm("fb", g), 0, static_cast<unsigned>(all.size()) - 1);
        const auto t = pick(nm("type", g), 0, 1);
        all.push_back(t ? v.create_lt(all[a], all[b]) : v.create_not(all[a]));
        vx_assume(t || b == 0);
    }
    const auto p = pick("po", 0, static_cast<unsigned>(all.size()) - 1);
    v.create_po(all.back(), "o0");
    v.create_po(all[p], "o1");
    vx_check(v.num_virtual_pis() == nv && v.num_real_pis() == 2 && v.num_pis() == nv + 2 && v.real_size() == v.size() - nv && v.num_virtual_cis() == nv && v.num_real_cis() == 2, "virtual and real inputs are counted");
    unsigned cr = 0, cv = 0;
    v.foreach_real_pi([&](const auto& x) { cr += v.is_real_pi(x) && v.is_real_ci(x); });
    v.foreach_virtual_pi([&](const auto& x) { cv += v.is_virtual_pi(x) && v.is_virtual_ci(x); });
    vx_check(cr == 2 && cv == nv, "virtual and real inputs are enumerated");
    const std::uint8_t w0 = eval(v, all.back(), pis, bits), w1 = eval(v, all[p], pis, bits);
    const auto r = delete_virtual_pis(v);
    vx_check(r.num_virtual_pis() == 0 && r.num_pis() == 2 && r.num_pos() == 2, "virtual inputs are gone");
    std::vector<std::uint64_t> rp;
    r.foreach_pi([&](const auto& x) { rp.push_back(x); });
    vx_check(eval(r, r.po_at(0), rp, in) == (w0 != 0) && eval(r, r.po_at(1), rp, in) == (w1 != 0), "outputs compute the function of the real inputs");
    vx_check(r.has_name(r.pi_at(0)) && r.get_name(r.pi_at(0)) == "in0" && r.has_name(r.pi_at(1)) && r.get_name(r.pi_at(1)) == "in1", "real inputs keep their names");
    vx_check(r.has_output_name(0) && r.get_output_name(0) == "o0" && r.has_output_name(1) && r.get_output_name(1) == "o1", "outputs keep their names");
    V c = v.clone();
    (void)c.create_virtual_pi(real[0]);
    vx_check(v.num_virtual_pis() == nv && c.num_virtual_pis() == nv + 1 && v.num_pis() == nv + 2, "a clone is independent");
    vx_reach("virtual");
}

VX_ENTRY(nt_utils)
{
    const auto                      n = make<TEC>({.max_pi = 2, .gates = 3, .pos = 2, .types = VX_B(1u << NOT | 1u << LT, 1u << NOT | 1u << AND | 1u << MAJ), .constants = true});
    const mockturtle::fanout_view<TEC> f{n.ntk};
    using F = mockturtle::fanout_view<TEC>;
    bool ok = true, high2 = false, high1 = false;
    unsigned edges = 0, want_edges = 0;
    foreach_edge(f, [&](const auto& e) { ++edges; ok = ok && (f.is_constant(e.source) || e.source < e.target); });
    std::vector<unsigned> inv(n.ntk.size(), 0), npaths(n.ntk.size(), 0);
    for (auto it = n.nodes.rbegin(); it != n.nodes.rend(); ++it)
        n.ntk.foreach_fanin(*it, [&](const auto& c) { inv[c] = std::max(inv[c], inv[*it] + 1); });
    for (auto x : n.nodes)
    {
        std::vector<std::uint64_t> real;
        int                        con = -1;
        unsigned                   nc = 0;
        n.ntk.foreach_fanin(x, [&](const auto& c) { ++want_edges; if (n.ntk.is_constant(c)) { con = static_cast<int>(c); ++nc; } else real.push_back(c); });
        const auto fc = fanins(f, x);
        ok = ok && fc.fanin_nodes == real && (con >= 0 ? fc.constant_fanin == std::optional<bool>{con == 1} : !fc.constant_fanin.has_value()) && num_constant_fanins(f, x) == nc;
        const auto fe = fanin_edges(f, x);
        ok = ok && fe.fanin_edges.size() == real.size();
        for (std::size_t i = 0; ok && i < real.size(); ++i)
            ok = fe.fanin_edges[i] == mockturtle::edge<F>{real[i], x};
        bool pi = false;
        for (auto c : real)
            pi = pi || n.ntk.is_pi(c);
        ok = ok && has_incoming_primary_input(f, x) == pi;
        high2 = high2 || real.size() > 2;
        high1 = high1 || real.size() > 1;
        if (n.ntk.fanin_size(x) == 0)
            npaths[x] = 1;
        for (auto c : real)
            npaths[x] += npaths[c];
        const auto ps = all_incoming_edge_paths(f, x);
        bool       pok = ps.size() == npaths[x];
        for (const auto& p : ps)
        {
            for (std::size_t i = 0; i < p.size(); ++i)
                pok = pok && p[i].target == (i + 1 < p.size() ? p[i + 1].source : x);
            if (!p.empty())
                pok = pok && (n.ntk.is_pi(p[0].source));
        }
        vx_check(pok, "paths to a node are the chains of edges from the inputs");
        std::vector<std::uint64_t> fo;
        for (auto y : n.nodes)
        {
            bool uses = false;
            n.ntk.foreach_fanin(y, [&](const auto& c) { uses = uses || c == x; });
            if (uses)
                fo.push_back(y);
        }
        ok = ok && fanouts(f, x) == fo;
        unsigned oe = 0;
        foreach_outgoing_edge(f, x, [&](const auto& e) { ok = ok && oe < fo.size() && e.source == x && e.target == fo[oe]; ++oe; });
        ok = ok && oe == fo.size();
    }
    vx_check(ok && edges == want_edges, "fanins, fanouts and edges are those of the network");
    vx_check(has_high_degree_fanin_nodes(f, 2) == high2 && has_high_degree_fanin_nodes(f, 1) == high1, "nodes of high degree are found");
    const auto il = inverse_levels(f);
    bool       iok = true;
    for (auto x : n.nodes)
        iok = iok && (n.ntk.fanout_size(x) == 0 || il[x] == inv[x]);
    vx_check(iok, "inverse levels are the longest distances to the last gates");
    vx_reach("utilities");
}

VX_ENTRY(nt_bfs)
{
    const auto n = make<TEC>({.max_pi = 2, .gates = 3, .pos = 2, .types = VX_B(1u << NOT | 1u << AND, 1u << NOT | 1u << LT | 1u << MAJ), .constants = true, .dangling = true});
    const bfs_topo_view<TEC>   b{n.ntk};
    std::vector<std::uint64_t> order;
    b.foreach_node([&](const auto& x) { order.push_back(x); });
    vx_check(order.size() == n.ntk.size() && b.size() == n.ntk.size() && b.num_gates() == n.ntk.num_gates(), "every node is visited once");
    std::vector<unsigned> at(n.ntk.size(), 999), lvl(n.ntk.size(), 0);
    bool                  ok = true;
    for (unsigned i = 0; i < order.size(); ++i)
    {
        ok = ok && at[order[i]] == 999;
        at[order[i]] = i;
    }
    for (auto x : n.nodes)
    {
        n.ntk.foreach_fanin(x, [&](const auto& c) { ok = ok && at[c] < at[x]; });
        ok = ok && b.index_to_node(b.node_to_index(x)) == x;
    }
    vx_check(ok, "every node comes after its fanins");
    std::vector<std::uint64_t> g, gr, all;
    b.foreach_gate([&](const auto& x) { g.push_back(x); });
    b.foreach_gate_reverse([&](const auto& x) { gr.push_back(x); });
    b.foreach_node_reverse([&](const auto& x) { all.push_back(x); });
    std::reverse(gr.begin(), gr.end());
    std::reverse(all.begin(), all.end());
    vx_check(g == gr && all == order && g == std::vector<std::uint64_t>(order.begin() + 2 + static_cast<long>(n.pis.size()), order.end()), "gates come after constants and inputs, backwards in the reverse order");
    vx_reach("bfs");
}

VX_ENTRY(nt_depth)
{
    auto       n = make<TEC>({.max_pi = 2, .gates = 3, .pos = 2, .types = VX_B(1u << NOT | 1u << AND, 1u << NOT | 1u << LT | 1u << MAJ)});
    const auto l = levels_of(n.ntk);
    static_depth_view<TEC> d{n.ntk};
    unsigned               deep = 0;
    for (auto o : n.outs)
        deep = std::max(deep, l[o]);
    bool ok = d.depth() == deep;
    for (auto x : n.nodes)
        ok = ok && d.level(x) == l[x];
    vx_check(ok, "levels are the longest distances from the inputs");
    // longest distance to an output of maximal level
    std::vector<bool> crit(n.ntk.size(), false);
    for (auto o : n.outs)
        if (l[o] == deep)
            crit[o] = true;
    for (auto it = n.nodes.rbegin(); it != n.nodes.rend(); ++it)
        if (crit[*it])
            n.ntk.foreach_fanin(*it, [&](const auto& c) { if (l[c] + 1 == l[*it]) crit[c] = true; });
    for (auto x : n.nodes)
        ok = ok && d.is_on_critical_path(x) == crit[x];
    vx_check(ok, "the critical path consists of the nodes of longest chains");
    const auto a = pick("a", 0, static_cast<unsigned>(n.nodes.size()) - 1), b = pick("b", 0, static_cast<unsigned>(n.nodes.size()) - 1);
    auto       copy = d;
    const auto g = d.create_and(n.nodes[a], n.nodes[b]);
    d.on_add(g);
    vx_check(d.level(g) == std::max(l[n.nodes[a]], l[n.nodes[b]]) + 1 && d.depth() == std::max(deep, d.level(g)), "added gates extend the levels");
    vx_check(copy.depth() == deep, "copies are independent");
    d.create_po(g);
    d.update_levels();
    vx_check(d.level(g) == std::max(l[n.nodes[a]], l[n.nodes[b]]) + 1 && d.depth() == std::max(deep, d.level(g)), "updated levels include added gates");
    vx_reach("depth");
}

VX_ENTRY(nt_rank)
{
    auto                   n = make<TEC>({.max_pi = 2, .gates = 3, .pos = 2, .types = VX_B(1u << NOT | 1u << AND, 1u << NOT | 1u << LT | 1u << MAJ)});
    const auto             l = levels_of(n.ntk);
    mutable_rank_view<TEC> r{n.ntk};
    const auto consistent = [&](const mutable_rank_view<TEC>& v, const std::vector<std::uint64_t>& nodes, const std::vector<unsigned>& lv)
    {
        bool     ok = v.check_validity();
        unsigned count = 0, wide = 0;
        for (unsigned k = 0; k <= v.depth(); ++k)
        {
            count += v.rank_width(k);
            wide = std::max(wide, v.rank_width(k));
        }
        ok = ok && count == nodes.size() && v.width() == wide;
        for (auto x : nodes)
            ok = ok && v.at_rank_position(lv[x], v.rank_position(x)) == x;
        return ok;
    };
    vx_check(consistent(r, n.nodes, l), "every node has one position in the rank of its level");
    std::vector<std::uint64_t> seen, gates;
    r.foreach_node([&](const auto& x) { seen.push_back(x); });
    r.foreach_gate([&](const auto& x) { gates.push_back(x); });
    bool ok = seen.size() == n.nodes.size() && gates.size() == n.nodes.size() - n.pis.size();
    for (std::size_t i = 1; ok && i < seen.size(); ++i)
        ok = l[seen[i - 1]] <= l[seen[i]];
    vx_check(ok, "nodes are visited by rank");
    const auto a = n.nodes[pick("a", 0, static_cast<unsigned>(n.nodes.size()) - 1)], b = n.nodes[pick("b", 0, static_cast<unsigned>(n.nodes.size()) - 1)];
    if (l[a] == l[b])
    {
        const auto copy = r;
        const auto pa = r.rank_position(a), pb = r.rank_position(b);
        r.swap(a, b);
        vx_check(r.rank_position(a) == pb && r.rank_position(b) == pa && consistent(r, n.nodes, l), "swapping exchanges two nodes of a rank");
        vx_check(copy.rank_position(a) == pa && copy.rank_position(b) == pb && consistent(copy, n.nodes, l), "copies are independent");
        vx_reach("swapped");
        r.sort_rank(l[a], [](const auto& x, const auto& y) { return x > y; });
        vx_check(consistent(r, n.nodes, l), "sorting a rank keeps positions consistent");
        auto ranks = r.get_all_ranks();
        std::reverse(ranks[0].begin(), ranks[0].end());
        r.set_all_ranks(ranks);
        vx_check(consistent(r, n.nodes, l) && r.get_ranks(0) == ranks[0], "set ranks are kept");
        std::vector<std::uint64_t> pis;
        r.foreach_pi([&](const auto& x) { pis.push_back(x); });
        vx_check(pis == ranks[0] || ranks[0].size() != pis.size(), "inputs are visited in the order of their rank");
        r.update_ranks();
        vx_check(consistent(r, n.nodes, l), "updated ranks are consistent");
        const mutable_rank_view<TEC> again{n.ntk, ranks};
        vx_check(consistent(again, n.nodes, l) && again.get_all_ranks() == ranks, "given ranks are adopted");
    }
}
