#pragma once
#include "interface/types.hpp"

#include <vector>

namespace bill
{
template <typename Solver>
lit_type add_tseytin_and(Solver& s, const std::vector<lit_type>& ls)
{
    const lit_type        r{s.add_variable(), positive_polarity};
    std::vector<lit_type> c{r};
    for (const auto& l : ls)
    {
        s.add_clause(std::vector<lit_type>{~r, l});
        c.push_back(~l);
    }
    s.add_clause(c);
    return r;
}
template <typename Solver>
lit_type add_tseytin_or(Solver& s, const std::vector<lit_type>& ls)
{
    const lit_type        r{s.add_variable(), positive_polarity};
    std::vector<lit_type> c{~r};
    for (const auto& l : ls)
    {
        s.add_clause(std::vector<lit_type>{r, ~l});
        c.push_back(l);
    }
    s.add_clause(c);
    return r;
}
template <typename Solver>
lit_type add_tseytin_and(Solver& s, lit_type a, lit_type b)
{
    return add_tseytin_and(s, std::vector<lit_type>{a, b});
}
template <typename Solver>
lit_type add_tseytin_or(Solver& s, lit_type a, lit_type b)
{
    return add_tseytin_or(s, std::vector<lit_type>{a, b});
}
template <typename Solver>
lit_type add_tseytin_equals(Solver& s, lit_type a, lit_type b)
{
    const lit_type r{s.add_variable(), positive_polarity};
    s.add_clause(std::vector<lit_type>{~r, ~a, b});
    s.add_clause(std::vector<lit_type>{~r, a, ~b});
    s.add_clause(std::vector<lit_type>{r, a, b});
    s.add_clause(std::vector<lit_type>{r, ~a, ~b});
    return r;
}
}  // namespace bill
