#pragma once
#include "klut.hpp"
namespace mockturtle
{
class xag_network : public klut_network
{
  public:
    using base_type = xag_network;
    using klut_network::klut_network;
};
}
