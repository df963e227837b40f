// Stand-in for mockturtle (not installed here).
#pragma once
#include <cstdint>
#include <type_traits>
namespace mockturtle::detail
{
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_with_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType&, uint32_t>;
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_without_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType&>;

template <class Fn, class E>
bool vx_call(Fn&& fn, E&& e, uint32_t& index)
{
    using T = std::remove_reference_t<E>;
    if constexpr (is_callable_without_index_v<Fn, T, bool>)
        return fn(e);
    else if constexpr (is_callable_with_index_v<Fn, T, bool>)
        return fn(e, index++);
    else if constexpr (is_callable_without_index_v<Fn, T, void>)
    {
        fn(e);
        return true;
    }
    else
    {
        fn(e, index++);
        return true;
    }
}
template <class Iterator, class ElementType = typename Iterator::value_type, class Fn>
Iterator foreach_element(Iterator begin, Iterator end, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t index = counter_offset;
    while (begin != end)
    {
        decltype(auto) e = *begin++;
        if (!vx_call(fn, static_cast<const std::remove_reference_t<decltype(e)>&>(e), index))
            return begin;
    }
    return begin;
}
template <class Iterator, class ElementType = typename Iterator::value_type, class Pred, class Fn>
Iterator foreach_element_if(Iterator begin, Iterator end, Pred&& pred, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t index = counter_offset;
    while (begin != end)
    {
        if (!pred(*begin))
        {
            ++begin;
            continue;
        }
        decltype(auto) e = *begin++;
        if (!vx_call(fn, static_cast<const std::remove_reference_t<decltype(e)>&>(e), index))
            return begin;
    }
    return begin;
}
template <class Iterator, class ElementType, class Transform, class Fn>
Iterator foreach_element_transform(Iterator begin, Iterator end, Transform&& transform, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t index = counter_offset;
    while (begin != end)
    {
        const ElementType e = transform(*begin++);
        if (!vx_call(fn, e, index))
            return begin;
    }
    return begin;
}
}  // namespace mockturtle::detail
