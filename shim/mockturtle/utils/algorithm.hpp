#pragma once
#include <cstdint>
#include <iterator>
#include <utility>
namespace mockturtle
{
template <class Iterator, class UnaryOp, class T>
Iterator max_element_unary(Iterator first, Iterator last, UnaryOp&& fn, T const& init)
{
    auto best = last;
    auto max  = init;
    for (; first != last; ++first)
        if (const auto v = fn(*first); v > max)
        {
            max  = v;
            best = first;
        }
    return best;
}
template <class Iterator, class BinaryOp>
typename std::iterator_traits<Iterator>::value_type tree_reduce(Iterator first, Iterator last,
                                                                typename std::iterator_traits<Iterator>::value_type const& init,
                                                                BinaryOp&& op)
{
    const auto len = std::distance(first, last);
    switch (len)
    {
        case 0u: return init;
        case 1u: return *first;
        case 2u: return op(*first, *(first + 1));
        case 3u: return op(op(*first, *(first + 1)), *(first + 2));
        default:
        {
            const auto m = len / 2;
            auto a = tree_reduce(first, first + m, init, op);
            auto b = tree_reduce(first + m, last, init, op);
            return op(a, b);
        }
    }
}
template <class T>
class vx_range
{
  public:
    struct iterator
    {
        using iterator_category = std::input_iterator_tag;
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using pointer           = T*;
        using reference         = T;
        T         v;
        T         operator*() const { return v; }
        iterator& operator++()
        {
            ++v;
            return *this;
        }
        iterator operator++(int)
        {
            auto r = *this;
            ++v;
            return r;
        }
        bool operator==(const iterator& o) const { return v == o.v; }
        bool operator!=(const iterator& o) const { return v != o.v; }
    };
    vx_range(T b, T e) : b_{b}, e_{e} {}
    iterator begin() const { return {b_}; }
    iterator end() const { return {e_}; }

  private:
    T b_, e_;
};
template <class T>
vx_range<T> range(T begin, T end)
{
    return {begin, end};
}
template <class T>
vx_range<T> range(T end)
{
    return {T{}, end};
}
}  // namespace mockturtle
