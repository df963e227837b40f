#pragma once
#include <cstdint>
#include <ostream>
#include <string>
namespace mockturtle
{
class progress_bar
{
  public:
    template <class... A>
    explicit progress_bar(A&&...)
    {}
    template <class... A>
    void operator()(A&&...)
    {}
    void done() {}
};
}  // namespace mockturtle
