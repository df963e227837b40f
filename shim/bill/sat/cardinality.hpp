#pragma once
#include "interface/types.hpp"

#include <vector>

namespace bill
{
template <typename Solver>
void at_least_one(const std::vector<var_type>& vars, Solver& s)
{
    std::vector<lit_type> c;
    for (const auto v : vars)
        c.emplace_back(v, positive_polarity);
    s.add_clause(c);
}
template <typename Solver>
void at_most_one(const std::vector<var_type>& vars, Solver& s)
{
    for (std::size_t i = 0; i < vars.size(); ++i)
        for (std::size_t j = i + 1; j < vars.size(); ++j)
            s.add_clause(std::vector<lit_type>{lit_type{vars[i], negative_polarity}, lit_type{vars[j], negative_polarity}});
}
}  // namespace bill
