#pragma once
#include "types.hpp"

#include <cstddef>
#include <functional>
#include <vector>

namespace bill
{
enum class solvers : std::uint8_t
{
    glucose_41,
    ghack,
    maple,
    bmcg,
    bsat2
};
// which value a decision tries first; harnesses may let it be any
inline std::function<bool()> first_value = []() { return false; };

template <solvers S = solvers::glucose_41>
class solver
{
  public:
    var_type add_variable()
    {
        return num++;
    }
    void add_variables(std::uint32_t n = 1)
    {
        num += n;
    }
    [[nodiscard]] std::uint32_t num_variables() const
    {
        return num;
    }
    [[nodiscard]] std::uint32_t num_clauses() const
    {
        return static_cast<std::uint32_t>(clauses.size());
    }
    result::states add_clause(const std::vector<lit_type>& c)
    {
        clauses.push_back(c);
        return result::states::dirty;
    }
    result::states add_clause(lit_type l)
    {
        return add_clause(std::vector<lit_type>{l});
    }
    result::states solve(const std::vector<lit_type>& assumptions = {}, std::uint32_t = 0)
    {
        std::vector<lbool_type> v(num, lbool_type::undefined);
        for (const auto& a : assumptions)
            v.at(a.variable()) = a.is_complemented() ? lbool_type::false_ : lbool_type::true_;
        sat = search(v);
        return sat ? result::states::satisfiable : result::states::unsatisfiable;
    }
    [[nodiscard]] result get_model() const
    {
        return sat ? result{last} : result{result::states::unsatisfiable};
    }

  private:
    std::uint32_t                      num{0};
    std::vector<std::vector<lit_type>> clauses{};
    result::model_type                 last{};
    bool                               sat{false};

    bool search(std::vector<lbool_type> v)
    {
        for (bool more = true; more;)
        {
            more = false;
            for (const auto& c : clauses)
            {
                std::size_t open = 0;
                lit_type    unit{};
                bool        done = false;
                for (const auto& l : c)
                {
                    const auto x = v[l.variable()];
                    if (x == lbool_type::undefined)
                    {
                        if (open == 0 || !(unit == l))
                            ++open;
                        unit = l;
                    }
                    else if ((x == lbool_type::true_) != l.is_complemented())
                    {
                        done = true;
                        break;
                    }
                }
                if (done || open > 1)
                    continue;
                if (open == 0)
                    return false;
                v[unit.variable()] = unit.is_complemented() ? lbool_type::false_ : lbool_type::true_;
                more               = true;
            }
        }
        for (std::size_t i = 0; i < v.size(); ++i)
            if (v[i] == lbool_type::undefined)
            {
                const bool first = first_value();
                v[i]             = first ? lbool_type::true_ : lbool_type::false_;
                if (search(v))
                    return true;
                v[i] = first ? lbool_type::false_ : lbool_type::true_;
                return search(v);
            }
        last = v;
        return true;
    }
};
}  // namespace bill
