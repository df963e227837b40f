// Model of the SAT solvers of bill: complete search over all assignments.
#pragma once
#include <cstdint>
#include <utility>
#include <vector>

namespace bill
{
using var_type = std::uint32_t;

enum class lbool_type : std::uint8_t
{
    false_ = 0,
    true_  = 1,
    undefined
};
class lit_type
{
  public:
    enum polarities : std::uint8_t
    {
        positive,
        negative
    };
    constexpr lit_type(var_type v, polarities p = positive) : data{(v << 1u) | p} {}
    constexpr lit_type() = default;
    [[nodiscard]] constexpr var_type variable() const
    {
        return data >> 1u;
    }
    [[nodiscard]] constexpr bool is_complemented() const
    {
        return (data & 1u) != 0;
    }
    constexpr lit_type operator~() const
    {
        lit_type l{};
        l.data = data ^ 1u;
        return l;
    }
    constexpr bool operator==(const lit_type& o) const
    {
        return data == o.data;
    }

  private:
    std::uint32_t data{0};
};
inline constexpr auto positive_polarity = lit_type::positive;
inline constexpr auto negative_polarity = lit_type::negative;

class result
{
  public:
    using model_type  = std::vector<lbool_type>;
    using clause_type = std::vector<lit_type>;
    enum class states : std::uint8_t
    {
        satisfiable,
        unsatisfiable,
        undefined,
        timeout,
        dirty
    };
    result(model_type m) : state_{states::satisfiable}, model_{std::move(m)} {}
    explicit result(states s = states::undefined) : state_{s} {}
    [[nodiscard]] const model_type& model() const
    {
        return model_;
    }
    explicit operator bool() const
    {
        return state_ == states::satisfiable;
    }

  private:
    states     state_;
    model_type model_{};
};
}  // namespace bill
