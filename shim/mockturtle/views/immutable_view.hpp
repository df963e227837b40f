#pragma once
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class immutable_view : public Ntk
{
  public:
    immutable_view(Ntk const& n) : Ntk(n) {}
};
}  // namespace mockturtle
