#pragma once
#include <cstdint>
#include <vector>
namespace mockturtle
{
template <class TT>
class truth_table_cache
{
  public:
    truth_table_cache(uint32_t = 1000) {}
    uint32_t insert(TT tt)
    {
        uint32_t is_compl = 0;
        if (get_bit(tt, 0))
        {
            is_compl = 1;
            tt       = ~tt;
        }
        for (uint32_t i = 0; i < data.size(); ++i)
            if (data[i] == tt)
                return 2 * i + is_compl;
        data.push_back(tt);
        return 2 * (static_cast<uint32_t>(data.size()) - 1) + is_compl;
    }
    TT operator[](uint32_t i) const
    {
        auto& e = data[i >> 1];
        return (i & 1) ? ~e : e;
    }
    auto size() const { return data.size(); }

  private:
    std::vector<TT> data;
};
}  // namespace mockturtle
