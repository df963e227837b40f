// Small logic networks with a structure chosen by the executor, and their functions over symbolic inputs.
#pragma once
#include "vx.h"
#include <fiction/networks/technology_network.hpp>
#include <mockturtle/traits.hpp>
#include <mockturtle/views/names_view.hpp>
#include <cstdint>
#include <string>
#include <vector>

namespace nets
{
using TEC = fiction::technology_network;
using NAM = mockturtle::names_view<TEC>;

enum gate : unsigned
{
    NOT,
    BUF,
    AND,
    OR,
    XOR,
    LT,
    GE,
    MAJ,
    ITE,
    NUM
};

inline unsigned pick(const char* n, unsigned lo, unsigned hi)
{
    return static_cast<unsigned>(vx_concretize(vx_range(n, lo, hi)));
}
inline const char* nm(const char* base, unsigned i)
{
    static std::vector<std::string> keep(64);
    static unsigned                 k = 0;
    auto&                           s = keep[k++ % 64];
    s = base + std::to_string(i);
    return s.c_str();
}

struct spec
{
    unsigned min_pi = 1, max_pi = 2, gates = 2, pos = 2;
    unsigned types     = 0xff;   // allowed gates
    bool     constants = false;  // fanins may be constants
    bool     dangling  = false;  // gates may be unused
    unsigned max_first = 99;     // outputs: see make()
    bool     free_pi   = true;   // inputs may be unused
    bool     distinct  = false;  // the fanins of a gate differ
};

// value of a node under an assignment of the inputs; as in simulation with truth tables, fanin i is bit i of the index
template <typename Ntk>
bool eval(const Ntk& ntk, const typename Ntk::node& n, const std::vector<typename Ntk::node>& pis, const std::vector<std::uint8_t>& in, int depth = 0)
{
    if (ntk.is_constant(n))
        return ntk.constant_value(n);
    for (std::size_t i = 0; i < pis.size(); ++i)
        if (pis[i] == n)
            return in[i] != 0;
    if (depth > 40)
        vx_fail("cyclic network");
    std::vector<std::uint8_t> fi;
    ntk.foreach_fanin(n, [&](const auto& f) { fi.push_back(static_cast<std::uint8_t>(eval(ntk, ntk.get_node(f), pis, in, depth + 1)) ^ static_cast<std::uint8_t>(ntk.is_complemented(f))); });
    const auto tt = ntk.node_function(n);
    if (tt.num_vars() != fi.size())
        vx_fail("number of fanins differs from the number of variables of the function");
    std::uint8_t r = 0;
    for (unsigned m = 0; m < (1u << fi.size()); ++m)
    {
        if (!kitty::get_bit(tt, m))
            continue;
        std::uint8_t t = 1;
        for (unsigned i = 0; i < fi.size(); ++i)
            t = static_cast<std::uint8_t>(t & (fi[i] ^ (1u ^ ((m >> i) & 1u))));
        r = static_cast<std::uint8_t>(r | t);
    }
    return r != 0;
}

template <typename Ntk>
struct net
{
    Ntk                              ntk;
    std::vector<typename Ntk::node>  pis;
    std::vector<std::uint8_t>        in;      // one symbolic bit per input
    std::vector<typename Ntk::node>  nodes;   // inputs and gates in order of creation
    std::vector<typename Ntk::node>  outs;
    std::vector<std::uint8_t>        out_val; // values of the outputs under `in`
};

inline unsigned arity(unsigned g) { return g <= BUF ? 1u : g >= MAJ ? 3u : 2u; }
inline bool     symmetric(unsigned g) { return g == AND || g == OR || g == XOR || g == MAJ; }

template <typename Ntk>
typename Ntk::signal add_gate(Ntk& ntk, unsigned g, const std::vector<typename Ntk::signal>& f)
{
    switch (g)
    {
        case NOT: return ntk.create_not(f[0]);
        case BUF: return ntk.create_buf(f[0]);
        case AND: return ntk.create_and(f[0], f[1]);
        case OR: return ntk.create_or(f[0], f[1]);
        case XOR: return ntk.create_xor(f[0], f[1]);
        case LT: return ntk.create_lt(f[0], f[1]);
        case GE: return ntk.create_ge(f[0], f[1]);
        case MAJ: return ntk.create_maj(f[0], f[1], f[2]);
        default: return ntk.create_ite(f[0], f[1], f[2]);
    }
}

template <typename Ntk>
net<Ntk> make(const spec& s)
{
    net<Ntk>   r;
    const auto np = pick("num_pi", s.min_pi, s.max_pi);
    for (unsigned i = 0; i < np; ++i)
    {
        typename Ntk::signal p;
        if constexpr (mockturtle::has_set_name_v<Ntk>)
            p = r.ntk.create_pi("in" + std::to_string(i));
        else
            p = r.ntk.create_pi();
        r.pis.push_back(r.ntk.get_node(p));
        r.nodes.push_back(r.ntk.get_node(p));
        r.in.push_back(static_cast<std::uint8_t>(vx_bool(nm("bit", i))));
    }
    std::vector<unsigned> ok;
    for (unsigned g = 0; g < NUM; ++g)
        if ((s.types >> g) & 1u)
            ok.push_back(g);
    const auto ng = pick("num_gates", s.gates > 2 ? 1 : 0, s.gates);
    for (unsigned k = 0; k < ng; ++k)
    {
        const auto g = ok[pick(nm("type", k), 0, static_cast<unsigned>(ok.size()) - 1)];
        std::vector<typename Ntk::signal> f;
        const unsigned                    extra = s.constants ? 2 : 0;
        unsigned                          prev = 0, consts = 0;
        for (unsigned a = 0; a < arity(g); ++a)
        {
            // index 0 and 1 are the constants
            const auto lo = symmetric(g) && a > 0 ? (s.distinct ? prev + 1 : prev) : 2 - extra;
            if (lo > 1 + r.nodes.size())
                vx_assume(false);
            const auto c  = pick(nm(a == 0 ? "fa" : a == 1 ? "fb" : "fc", k), lo, 1 + static_cast<unsigned>(r.nodes.size()));
            prev          = c;
            for (auto x : f)
                vx_assume(!s.distinct || x != (c < 2 ? r.ntk.get_constant(c == 1) : r.ntk.make_signal(r.nodes[c - 2])));
            consts += c < 2;
            f.push_back(c < 2 ? r.ntk.get_constant(c == 1) : r.ntk.make_signal(r.nodes[c - 2]));
        }
        vx_assume(consts == 0 || (g > BUF && consts == 1));
        r.nodes.push_back(r.ntk.get_node(add_gate(r.ntk, g, f)));
    }
    const auto no = pick("num_po", s.pos > 0 ? 1 : 0, s.pos > 0 ? s.pos : 0);
    for (unsigned k = 0; k < no; ++k)
    {
        unsigned c;
        if (k == 0)
            c = static_cast<unsigned>(r.nodes.size()) - 1;
        else
            c = pick(nm("po", k), 0, static_cast<unsigned>(r.nodes.size()) - 1);
        if constexpr (mockturtle::has_set_name_v<Ntk>)
            r.ntk.create_po(r.ntk.make_signal(r.nodes[c]), "out" + std::to_string(k));
        else
            r.ntk.create_po(r.ntk.make_signal(r.nodes[c]));
        r.outs.push_back(r.nodes[c]);
    }
    if (!s.dangling)
        for (std::size_t i = s.free_pi ? np : 0; i < r.nodes.size(); ++i)
            vx_assume(r.ntk.fanout_size(r.nodes[i]) > 0);
    for (auto o : r.outs)
        r.out_val.push_back(static_cast<std::uint8_t>(eval(r.ntk, o, r.pis, r.in)));
    return r;
}

// the inputs of `src` that are used, in order
template <typename Ntk>
std::vector<std::uint8_t> used_bits(const net<Ntk>& n)
{
    std::vector<std::uint8_t> u;
    for (std::size_t i = 0; i < n.pis.size(); ++i)
        if (n.ntk.fanout_size(n.pis[i]) > 0)
            u.push_back(n.in[i]);
    return u;
}

// `other` computes the same outputs from the inputs `bits`
template <typename Ntk, typename Other>
void check_same_function(const net<Ntk>& n, const Other& other, const std::vector<std::uint8_t>& bits)
{
    vx_check(other.num_pis() == bits.size(), "the inputs remain");
    vx_check(other.num_pos() == n.outs.size(), "the outputs remain");
    std::vector<typename Other::node> pis;
    other.foreach_pi([&](const auto& p) { pis.push_back(p); });
    std::uint8_t same = 1;
    unsigned     k    = 0;
    other.foreach_po(
        [&](const auto& po)
        {
            const auto v = static_cast<std::uint8_t>(eval(other, other.get_node(po), pis, bits)) ^ static_cast<std::uint8_t>(other.is_complemented(po));
            same         = static_cast<std::uint8_t>(same & (1u ^ v ^ n.out_val[k++]));
        });
    vx_check(same != 0, "every output computes the same function");
}

template <typename Ntk, typename Other>
void check_names(const net<Ntk>& n, const Other& other)
{
    bool     ok = true;
    unsigned k  = 0;
    for (std::size_t i = 0; i < n.pis.size(); ++i)
        if (n.ntk.fanout_size(n.pis[i]) > 0)
        {
            const auto s = other.make_signal(other.pi_at(k++));
            ok           = ok && other.has_name(s) && other.get_name(s) == "in" + std::to_string(i);
        }
    vx_check(ok, "inputs keep their names");
    ok = true;
    for (unsigned i = 0; i < n.outs.size(); ++i)
        ok = ok && other.has_output_name(i) && other.get_output_name(i) == "out" + std::to_string(i);
    vx_check(ok, "outputs keep their names");
}
}  // namespace nets
