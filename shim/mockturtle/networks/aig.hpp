#pragma once
#include "klut.hpp"
namespace mockturtle
{
class aig_network : public klut_network
{
  public:
    using base_type = aig_network;
    using klut_network::klut_network;
};
}
