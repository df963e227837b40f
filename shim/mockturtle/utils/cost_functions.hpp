#pragma once
#include <cstdint>
namespace mockturtle
{
template <class Ntk>
struct unit_cost
{
    uint32_t operator()(Ntk const&, typename Ntk::node const&) const { return 1u; }
};
}  // namespace mockturtle
