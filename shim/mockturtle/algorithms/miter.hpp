// Stand-in for mockturtle's miters.
#pragma once
#include <optional>
#include <vector>
#include "cleanup.hpp"
namespace mockturtle
{
template <class NtkDest, class Ntk1, class Ntk2>
std::optional<NtkDest> miter(Ntk1 const& a, Ntk2 const& b)
{
    if (a.num_pis() != b.num_pis() || a.num_pos() != b.num_pos())
        return std::nullopt;
    NtkDest                      dest;
    std::vector<signal<NtkDest>> pis;
    for (auto i = 0u; i < a.num_pis(); ++i)
        pis.push_back(dest.create_pi());
    const auto pa = cleanup_dangling(a, dest, pis.cbegin(), pis.cend()), pb = cleanup_dangling(b, dest, pis.cbegin(), pis.cend());
    auto       o  = dest.get_constant(false);
    for (auto i = 0u; i < pa.size(); ++i)
        o = dest.create_or(o, dest.create_xor(pa[i], pb[i]));
    dest.create_po(o);
    return dest;
}
}  // namespace mockturtle
