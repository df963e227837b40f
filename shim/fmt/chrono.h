// Dates: not modelled, they show as a constant.
#pragma once
#include <ctime>
#include <fmt/format.h>
template <>
struct fmt::formatter<std::tm>
{
    constexpr auto parse(fmt::format_parse_context& c)
    {
        auto i = c.begin();
        while (i != c.end() && *i != '}')
            ++i;
        return i;
    }
    template <typename C>
    auto format(const std::tm&, C& c) const
    {
        return fmt::format_to(c.out(), "1970-01-01 00:00:00");
    }
};
