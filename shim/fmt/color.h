// fiction formats runtime strings with a text style, which the fmt available here does not offer.
#pragma once
#include_next <fmt/color.h>
namespace fmt
{
template <typename... A>
std::string format(const text_style&, basic_runtime<char> s, const A&... a)
{
    return vformat(s.str, make_format_args(a...));
}
}  // namespace fmt
