#pragma once
#include "klut.hpp"
namespace mockturtle
{
class mig_network : public klut_network
{
  public:
    using base_type = mig_network;
    using klut_network::klut_network;
};
}
