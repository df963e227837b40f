#pragma once
#include <iosfwd>
namespace std
{
template <typename C, typename T>
inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n)
{
    using B = typename basic_ostream<C, T>::ios_base;
    typename basic_ostream<C, T>::sentry g(o);
    if (g)
    {
        const streamsize w    = o.width();
        const bool       left = (o.flags() & B::adjustfield) == B::left;
        if (w > n && !left)
            for (streamsize i = n; i < w; ++i)
                o.rdbuf()->sputc(o.fill());
        o.rdbuf()->sputn(s, n);
        if (w > n && left)
            for (streamsize i = n; i < w; ++i)
                o.rdbuf()->sputc(o.fill());
        o.width(0);
    }
    return o;
}
}  // namespace std
