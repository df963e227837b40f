// Small model of the standard stream library, used only when harnesses are compiled for the symbolic executor (the native
// builds that every trace is validated against use the real libstdc++ streams).  Streams are buffers without locales;
// integers are formatted digit by digit, so that symbolic numbers can be printed; doubles must be concrete.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cwchar>
#include <exception>
#include <iosfwd>
#include <stdexcept>
#include <string>
#include <string_view>
#include <ext/atomicity.h>
#include <system_error>
#include <type_traits>
#include <bits/char_traits.h>
#include <bits/stl_iterator_base_types.h>

extern "C" unsigned vx_format_double(char* out, double v, int prec, unsigned mode);
extern "C" double   vx_parse_double(const char* s);

namespace std
{
enum _Ios_Fmtflags : unsigned
{
};
constexpr _Ios_Fmtflags operator|(_Ios_Fmtflags a, _Ios_Fmtflags b) { return _Ios_Fmtflags(unsigned(a) | unsigned(b)); }
constexpr _Ios_Fmtflags operator&(_Ios_Fmtflags a, _Ios_Fmtflags b) { return _Ios_Fmtflags(unsigned(a) & unsigned(b)); }
constexpr _Ios_Fmtflags operator~(_Ios_Fmtflags a) { return _Ios_Fmtflags(~unsigned(a)); }
enum class io_errc
{
    stream = 1
};
template <>
struct is_error_code_enum<io_errc> : true_type
{};
const error_category& iostream_category() noexcept;
inline error_code     make_error_code(io_errc e) noexcept { return error_code(static_cast<int>(e), generic_category()); }

class locale
{
  public:
    locale() {}
    explicit locale(const char*) {}
    static const locale& classic()
    {
        static locale l{};
        return l;
    }
    class facet
    {};
    class id
    {};
    bool operator==(const locale&) const { return true; }
};
struct ctype_base
{
    using mask = unsigned;
    static constexpr mask upper = 1, lower = 2, alpha = 4, digit = 8, xdigit = 16, space = 32, print = 64, graph = 12, cntrl = 128, punct = 256, alnum = 12;
};
template <typename C>
class ctype
{
  public:
    using mask      = ctype_base::mask;
    using char_type = C;
    bool is(mask m, C c) const { return (m & 32) && (c == ' ' || (c >= 9 && c <= 13)); }
    C    widen(char c) const { return c; }
};
inline namespace __cxx11
{
template <typename C>
class numpunct
{
  public:
    using char_type   = C;
    using string_type = basic_string<C>;
    string grouping() const { return {}; }
    C      thousands_sep() const { return C(','); }
    C      decimal_point() const { return C('.'); }
};
}
template <typename F>
bool has_facet(const locale&) noexcept
{
    return true;
}
template <typename F>
const F& use_facet(const locale&)
{
    static F f{};
    return f;
}
class ios_base
{
  public:
    using fmtflags = _Ios_Fmtflags;
    using iostate  = unsigned;
    using openmode = unsigned;
    enum seekdir
    {
        beg,
        cur,
        end
    };
    static constexpr fmtflags boolalpha{1}, dec{2}, fixed{4}, hex{8}, internal{16}, left{32}, oct{64}, right{128}, scientific{256}, showbase{512}, showpoint{1024}, showpos{2048}, skipws{4096},
        unitbuf{8192}, uppercase{16384}, adjustfield{32 | 128 | 16}, basefield{2 | 64 | 8}, floatfield{256 | 4};
    static constexpr iostate  goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    class failure : public system_error
    {
      public:
        explicit failure(const string& s) : system_error(make_error_code(errc::io_error), s) {}
        explicit failure(const char* s, const error_code& = {}) : system_error(make_error_code(errc::io_error), s) {}
    };
    class Init
    {};
    fmtflags flags() const { return fl; }
    fmtflags flags(fmtflags f)
    {
        auto o = fl;
        fl     = f;
        return o;
    }
    fmtflags setf(fmtflags f)
    {
        auto o = fl;
        fl     = fl | f;
        return o;
    }
    fmtflags setf(fmtflags f, fmtflags m)
    {
        auto o = fl;
        fl     = (fl & ~m) | (f & m);
        return o;
    }
    void       unsetf(fmtflags m) { fl = fl & ~m; }
    streamsize precision() const { return prec; }
    streamsize precision(streamsize p)
    {
        auto o = prec;
        prec   = p;
        return o;
    }
    locale     getloc() const;
    streamsize width() const { return wid; }
    streamsize width(streamsize w)
    {
        auto o = wid;
        wid    = w;
        return o;
    }
    locale      imbue(const locale&);
    static bool sync_with_stdio(bool = true) { return true; }
    virtual ~ios_base() {}

  protected:
    fmtflags   fl{2 | 4096};
    streamsize prec{6}, wid{0};
};

inline locale ios_base::getloc() const { return {}; }
inline locale ios_base::imbue(const locale&) { return {}; }

template <typename C, typename T>
class basic_streambuf
{
  public:
    using char_type   = C;
    using traits_type = T;
    using int_type    = typename T::int_type;
    using pos_type    = typename T::pos_type;
    using off_type    = typename T::off_type;
    virtual ~basic_streambuf() {}
    streamsize sputn(const C* s, streamsize n)
    {
        if (keep)
            data.append(s, static_cast<size_t>(n));
        return n;
    }
    int_type sputc(C c)
    {
        if (keep)
            data.push_back(c);
        return T::to_int_type(c);
    }
    int_type sgetc() const { return pos < data.size() ? T::to_int_type(data[pos]) : T::eof(); }
    int_type sbumpc() { return pos < data.size() ? T::to_int_type(data[pos++]) : T::eof(); }
    int_type snextc()
    {
        if (pos < data.size())
            ++pos;
        return sgetc();
    }
    streamsize in_avail() const { return static_cast<streamsize>(data.size() - pos); }
    int_type   sungetc()
    {
        if (pos)
            --pos;
        return sgetc();
    }
    basic_string<C, T> data{};
    size_t             pos{0};
    bool               keep{true};
};

template <typename C, typename T>
class basic_ios : public ios_base
{
  public:
    using char_type   = C;
    using traits_type = T;
    using int_type    = typename T::int_type;
    using pos_type    = typename T::pos_type;
    using off_type    = typename T::off_type;
    explicit basic_ios(basic_streambuf<C, T>* b) : sb{b} {}
    using __ctype_type = ctype<C>;
    C        widen(char c) const { return c; }
    bool     good() const { return st == 0; }
    bool     eof() const { return st & eofbit; }
    bool     fail() const { return st & (badbit | failbit); }
    bool     bad() const { return st & badbit; }
    bool     operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    iostate  rdstate() const { return st; }
    void     clear(iostate s = goodbit)
    {
        st = s;
        check();
    }
    void setstate(iostate s)
    {
        st |= s;
        check();
    }
    void    _M_setstate(iostate s) { st |= s; }
    iostate exceptions() const { return exc; }
    void    exceptions(iostate e)
    {
        exc = e;
        check();
    }
    basic_streambuf<C, T>* rdbuf() const { return sb; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b)
    {
        auto* o = sb;
        sb      = b;
        st      = 0;
        return o;
    }
    C fill() const { return fi; }
    C fill(C c)
    {
        C o = fi;
        fi  = c;
        return o;
    }
    basic_ios& copyfmt(const basic_ios& o)
    {
        fl = o.fl, prec = o.prec, wid = o.wid, fi = o.fi;
        return *this;
    }
    basic_ostream<C, T>* tie(basic_ostream<C, T>* = nullptr) { return nullptr; }

  protected:
    basic_ios() {}
    void check()
    {
        if (st & exc)
            throw ios_base::failure("stream failure");
    }
    basic_streambuf<C, T>* sb{nullptr};
    iostate                st{0}, exc{0};
    C                      fi{' '};
};

template <typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T>
{
  public:
    using char_type   = C;
    using traits_type = T;
    using ios_base    = std::ios_base;
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->sb = b; }
    class sentry
    {
        bool ok;

      public:
        explicit sentry(basic_ostream& o) : ok{o.good()} {}
        explicit operator bool() const { return ok; }
    };
    basic_ostream& put(C c)
    {
        if (this->good())
            this->sb->sputc(c);
        return *this;
    }
    basic_ostream& write(const C* s, streamsize n)
    {
        if (this->good())
            this->sb->sputn(s, n);
        return *this;
    }
    basic_ostream& flush() { return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&) ) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&) )
    {
        f(*this);
        return *this;
    }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&) )
    {
        f(*this);
        return *this;
    }
    basic_ostream& operator<<(bool b)
    {
        if (this->flags() & ios_base::boolalpha)
            return b ? str("true", 4) : str("false", 5);
        return num(b, false);
    }
    basic_ostream& operator<<(short v) { return sig(v, static_cast<unsigned short>(v)); }
    basic_ostream& operator<<(unsigned short v) { return num(v, false); }
    basic_ostream& operator<<(int v) { return sig(v, static_cast<unsigned>(v)); }
    basic_ostream& operator<<(unsigned v) { return num(v, false); }
    basic_ostream& operator<<(long v) { return sig(v, static_cast<unsigned long>(v)); }
    basic_ostream& operator<<(unsigned long v) { return num(v, false); }
    basic_ostream& operator<<(long long v) { return sig(v, static_cast<unsigned long long>(v)); }
    basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
    basic_ostream& operator<<(double v)
    {
        char           b[400];
        unsigned       mode = ((this->flags() & ios_base::fixed) ? 1u : 0u) | ((this->flags() & ios_base::scientific) ? 2u : 0u);
        const unsigned n    = vx_format_double(b, v, static_cast<int>(this->precision()), mode);
        return str(b, n);
    }
    basic_ostream& operator<<(float v) { return *this << static_cast<double>(v); }
    basic_ostream& operator<<(long double v) { return *this << static_cast<double>(v); }
    basic_ostream& operator<<(const void* p) { return num(reinterpret_cast<uintptr_t>(p), false); }
    basic_ostream& operator<<(nullptr_t) { return str("nullptr", 7); }
    basic_ostream& operator<<(basic_streambuf<C, T>* b)
    {
        while (b->in_avail() > 0)
            put(T::to_char_type(b->sbumpc()));
        return *this;
    }
    basic_ostream& str(const char* s, size_t n)
    {
        basic_string<C, T> w(s, s + n);
        return __ostream_insert(*this, w.data(), static_cast<streamsize>(n));
    }
    streampos      tellp() { return static_cast<streamoff>(this->sb->data.size()); }
    basic_ostream& seekp(streamoff off, ios_base::seekdir)
    {
        if (off < 0)
            this->sb->data.resize(this->sb->data.size() - static_cast<size_t>(-off));
        return *this;
    }

  protected:
    basic_ostream() {}
    template <typename S, typename U>
    basic_ostream& sig(S v, U u)
    {
        const auto base = this->flags() & ios_base::basefield;
        if (base == ios_base::hex || base == ios_base::oct)
            return num(u, false);
        return v < 0 ? num(0 - static_cast<unsigned long long>(static_cast<long long>(v)), true) : num(static_cast<unsigned long long>(v), false);
    }
    basic_ostream& num(unsigned long long v, bool neg)
    {
        char       b[32];
        unsigned   p    = 32;
        const auto bf   = this->flags() & ios_base::basefield;
        const auto base = bf == ios_base::hex ? 16u : bf == ios_base::oct ? 8u : 10u;
        do
        {
            const auto d = static_cast<unsigned>(v % base);
            b[--p]       = static_cast<char>(d < 10 ? '0' + d : ((this->flags() & ios_base::uppercase) ? 'A' : 'a') + (d - 10));
            v /= base;
        } while (v);
        if ((this->flags() & ios_base::showbase) && base == 16)
        {
            b[--p] = 'x';
            b[--p] = '0';
        }
        if (neg)
            b[--p] = '-';
        return str(b + p, 32 - p);
    }
};

template <typename C, typename T>
basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c)
{
    return __ostream_insert(o, &c, 1);
}
template <typename C, typename T>
basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s)
{
    return __ostream_insert(o, s, static_cast<streamsize>(T::length(s)));
}
template <typename T>
basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c)
{
    return __ostream_insert(o, &c, 1);
}
template <typename T>
basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c)
{
    return o << static_cast<char>(c);
}
template <typename T>
basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c)
{
    return o << static_cast<char>(c);
}
template <typename T>
basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s)
{
    return __ostream_insert(o, s, static_cast<streamsize>(strlen(s)));
}
template <typename S, typename V, typename = enable_if_t<is_base_of_v<ios_base, remove_reference_t<S>> && !is_lvalue_reference_v<S>>, typename = decltype(declval<remove_reference_t<S>&>() << declval<const V&>())>
S&& operator<<(S&& s, const V& v)
{
    s << v;
    return static_cast<S&&>(s);
}
template <typename C, typename T>
basic_ostream<C, T>& endl(basic_ostream<C, T>& o)
{
    return o.put('\n');
}
template <typename C, typename T>
basic_ostream<C, T>& ends(basic_ostream<C, T>& o)
{
    return o.put('\0');
}
template <typename C, typename T>
basic_ostream<C, T>& flush(basic_ostream<C, T>& o)
{
    return o;
}

template <typename C, typename T>
class basic_istream : virtual public basic_ios<C, T>
{
  public:
    using char_type   = C;
    using traits_type = T;
    using int_type    = typename T::int_type;
    using ios_base    = std::ios_base;
    explicit basic_istream(basic_streambuf<C, T>* b) { this->sb = b; }
    class sentry
    {
        bool ok;

      public:
        explicit sentry(basic_istream& i, bool noskip = false)
        {
            if (i.good() && !noskip && (i.flags() & ios_base::skipws))
            {
                auto c = i.rdbuf()->sgetc();
                while (!T::eq_int_type(c, T::eof()) && space(c))
                    c = i.rdbuf()->snextc();
                if (T::eq_int_type(c, T::eof()))
                    i.setstate(ios_base::eofbit | ios_base::failbit);
            }
            else if (!i.good())
                i.setstate(ios_base::failbit);
            ok = i.good();
        }
        explicit operator bool() const { return ok; }
    };
    static bool space(int_type c) { return c == ' ' || (c >= 9 && c <= 13); }
    int_type    get()
    {
        gc = 0;
        sentry s(*this, true);
        if (!s)
            return T::eof();
        auto c = this->sb->sbumpc();
        if (T::eq_int_type(c, T::eof()))
            this->setstate(ios_base::eofbit | ios_base::failbit);
        else
            gc = 1;
        return c;
    }
    basic_istream& get(C& c)
    {
        auto r = get();
        if (!T::eq_int_type(r, T::eof()))
            c = T::to_char_type(r);
        return *this;
    }
    int_type peek()
    {
        if (!this->good())
            return T::eof();
        auto c = this->sb->sgetc();
        if (T::eq_int_type(c, T::eof()))
            this->setstate(ios_base::eofbit);
        return c;
    }
    basic_istream& unget()
    {
        this->sb->sungetc();
        return *this;
    }
    basic_istream& ignore(streamsize n = 1, int_type d = T::eof())
    {
        while (n-- > 0)
        {
            auto c = this->sb->sbumpc();
            if (T::eq_int_type(c, T::eof()))
            {
                this->setstate(ios_base::eofbit);
                break;
            }
            if (T::eq_int_type(c, d))
                break;
        }
        return *this;
    }
    streamsize     gcount() const { return gc; }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&) ) { return f(*this); }
    basic_istream& operator>>(ios_base& (*f)(ios_base&) )
    {
        f(*this);
        return *this;
    }
    basic_istream& operator>>(short& v) { return sg(v); }
    basic_istream& operator>>(int& v) { return sg(v); }
    basic_istream& operator>>(long& v) { return sg(v); }
    basic_istream& operator>>(long long& v) { return sg(v); }
    basic_istream& operator>>(unsigned short& v) { return sg(v); }
    basic_istream& operator>>(unsigned& v) { return sg(v); }
    basic_istream& operator>>(unsigned long& v) { return sg(v); }
    basic_istream& operator>>(unsigned long long& v) { return sg(v); }
    basic_istream& operator>>(bool& v) { return sg(v); }
    basic_istream& operator>>(double& v)
    {
        sentry s(*this);
        if (s)
        {
            char   b[64];
            size_t n = 0;
            auto   c = this->sb->sgetc();
            while (n < 63 && ((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E'))
            {
                b[n++] = static_cast<char>(c);
                c      = this->sb->snextc();
            }
            b[n] = 0;
            if (T::eq_int_type(c, T::eof()))
                this->setstate(ios_base::eofbit);
            if (!n)
                this->setstate(ios_base::failbit), v = 0;
            else
                v = vx_parse_double(b);
        }
        return *this;
    }
    basic_istream& operator>>(float& v)
    {
        double d = 0;
        *this >> d;
        v = static_cast<float>(d);
        return *this;
    }

  protected:
    basic_istream() {}
    streamsize gc{0};
    template <typename I>
    basic_istream& sg(I& v)
    {
        sentry s(*this);
        if (!s)
            return *this;
        auto c   = this->sb->sgetc();
        bool neg = false, any = false, over = false;
        if (c == '-' || c == '+')
        {
            neg = c == '-';
            c   = this->sb->snextc();
        }
        unsigned long long u = 0;
        while (c >= '0' && c <= '9')
        {
            any                        = true;
            const unsigned long long d = static_cast<unsigned long long>(c - '0');
            if (u > (~0ull - d) / 10)
                over = true;
            u = u * 10 + d;
            c = this->sb->snextc();
        }
        if (T::eq_int_type(c, T::eof()))
            this->setstate(ios_base::eofbit);
        if (!any)
        {
            v = 0;
            this->setstate(ios_base::failbit);
            return *this;
        }
        if constexpr (is_signed_v<I>)
        {
            const unsigned long long lim = static_cast<unsigned long long>(numeric_limits_max<I>()) + (neg ? 1 : 0);
            if (over || u > lim)
            {
                u = lim;
                this->setstate(ios_base::failbit);
            }
        }
        else if (over || u > static_cast<unsigned long long>(numeric_limits_max<I>()))
        {
            u   = static_cast<unsigned long long>(numeric_limits_max<I>());
            neg = false;
            this->setstate(ios_base::failbit);
        }
        v = static_cast<I>(neg ? 0 - u : u);
        return *this;
    }
    template <typename I>
    static constexpr I numeric_limits_max()
    {
        if constexpr (is_same_v<I, bool>)
            return true;
        else if constexpr (is_signed_v<I>)
            return static_cast<I>((static_cast<unsigned long long>(1) << (sizeof(I) * 8 - 1)) - 1);
        else
            return static_cast<I>(~static_cast<I>(0));
    }
};
template <typename C, typename T>
basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c)
{
    typename basic_istream<C, T>::sentry s(i);
    if (s)
        c = T::to_char_type(i.rdbuf()->sbumpc());
    return i;
}
template <typename T>
basic_istream<char, T>& operator>>(basic_istream<char, T>& i, unsigned char& c)
{
    return i >> reinterpret_cast<char&>(c);
}
template <typename C, typename T>
basic_istream<C, T>& ws(basic_istream<C, T>& i)
{
    auto c = i.rdbuf()->sgetc();
    while (!T::eq_int_type(c, T::eof()) && basic_istream<C, T>::space(c))
        c = i.rdbuf()->snextc();
    if (T::eq_int_type(c, T::eof()))
        i.setstate(ios_base::eofbit);
    return i;
}
template <>
inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s)
{
    using T = char_traits<char>;
    s.clear();
    typename basic_istream<char>::sentry g(i);
    if (!g)
        return i;
    auto c = i.rdbuf()->sgetc();
    while (!T::eq_int_type(c, T::eof()) && !basic_istream<char>::space(c))
    {
        s.push_back(T::to_char_type(c));
        c = i.rdbuf()->snextc();
    }
    if (T::eq_int_type(c, T::eof()))
        i.setstate(ios_base::eofbit);
    if (s.empty())
        i.setstate(ios_base::failbit);
    return i;
}
template <>
inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char delim)
{
    using T = char_traits<char>;
    s.clear();
    typename basic_istream<char>::sentry g(i, true);
    if (!g)
        return i;
    bool any = false;
    while (true)
    {
        auto c = i.rdbuf()->sbumpc();
        if (T::eq_int_type(c, T::eof()))
        {
            i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit));
            break;
        }
        any = true;
        if (T::to_char_type(c) == delim)
            break;
        s.push_back(T::to_char_type(c));
    }
    return i;
}

template <typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
  public:
    using char_type   = C;
    using traits_type = T;
    explicit basic_iostream(basic_streambuf<C, T>* b) { this->sb = b; }

  protected:
    basic_iostream() {}
};

inline namespace __cxx11
{
template <typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T>
{
  public:
    basic_stringbuf() {}
    basic_string<C, T, A> str() const { return this->data; }
    void                  str(const basic_string<C, T, A>& s)
    {
        this->data = s;
        this->pos  = 0;
    }
};
template <typename C, typename T, typename A>
class basic_ostringstream : public basic_ostream<C, T>
{
    basic_stringbuf<C, T, A> buf{};

  public:
    basic_ostringstream() { this->sb = &buf; }
    explicit basic_ostringstream(ios_base::openmode) { this->sb = &buf; }
    explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0)
    {
        this->sb = &buf;
        buf.data = s;
    }
    basic_ostringstream(basic_ostringstream&& o)
    {
        buf.data = o.buf.data;
        this->sb = &buf;
    }
    basic_string<C, T, A>     str() const { return buf.data; }
    void                      str(const basic_string<C, T, A>& s) { buf.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&buf); }
};
template <typename C, typename T, typename A>
class basic_istringstream : public basic_istream<C, T>
{
    basic_stringbuf<C, T, A> buf{};

  public:
    basic_istringstream() { this->sb = &buf; }
    explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0)
    {
        this->sb = &buf;
        buf.data = s;
    }
    basic_string<C, T, A>     str() const { return buf.data; }
    void                      str(const basic_string<C, T, A>& s) { buf.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&buf); }
};
template <typename C, typename T, typename A>
class basic_stringstream : public basic_iostream<C, T>
{
    basic_stringbuf<C, T, A> buf{};

  public:
    basic_stringstream() { this->sb = &buf; }
    explicit basic_stringstream(ios_base::openmode) { this->sb = &buf; }
    explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0)
    {
        this->sb = &buf;
        buf.data = s;
    }
    basic_stringstream(basic_stringstream&& o)
    {
        buf.data = o.buf.data;
        buf.pos  = o.buf.pos;
        this->sb = &buf;
    }
    basic_string<C, T, A>     str() const { return buf.data; }
    void                      str(const basic_string<C, T, A>& s) { buf.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&buf); }
};
}  // namespace __cxx11

// files: opening always fails in the model
template <typename C, typename T>
class basic_filebuf : public basic_streambuf<C, T>
{};
template <typename C, typename T>
class basic_ofstream : public basic_ostream<C, T>
{
    basic_filebuf<C, T> buf{};

  public:
    basic_ofstream() { this->sb = &buf; }
    template <typename N>
    explicit basic_ofstream(const N&, ios_base::openmode = 0)
    {
        this->sb = &buf;
        this->setstate(ios_base::failbit);
    }
    template <typename N>
    void open(const N&, ios_base::openmode = 0)
    {
        this->setstate(ios_base::failbit);
    }
    bool is_open() const { return false; }
    void close() {}
};
template <typename C, typename T>
class basic_ifstream : public basic_istream<C, T>
{
    basic_filebuf<C, T> buf{};

  public:
    basic_ifstream() { this->sb = &buf; }
    template <typename N>
    explicit basic_ifstream(const N&, ios_base::openmode = 0)
    {
        this->sb = &buf;
        this->setstate(ios_base::failbit);
    }
    template <typename N>
    void open(const N&, ios_base::openmode = 0)
    {
        this->setstate(ios_base::failbit);
    }
    bool is_open() const { return false; }
    void close() {}
};
template <typename C, typename T>
class basic_fstream : public basic_iostream<C, T>
{
    basic_filebuf<C, T> buf{};

  public:
    basic_fstream() { this->sb = &buf; }
    template <typename N>
    explicit basic_fstream(const N&, ios_base::openmode = 0)
    {
        this->sb = &buf;
        this->setstate(ios_base::failbit);
    }
    bool is_open() const { return false; }
    void close() {}
};

inline ios_base& boolalpha(ios_base& b) { return b.setf(ios_base::boolalpha), b; }
inline ios_base& noboolalpha(ios_base& b) { return b.unsetf(ios_base::boolalpha), b; }
inline ios_base& showbase(ios_base& b) { return b.setf(ios_base::showbase), b; }
inline ios_base& uppercase(ios_base& b) { return b.setf(ios_base::uppercase), b; }
inline ios_base& nouppercase(ios_base& b) { return b.unsetf(ios_base::uppercase), b; }
inline ios_base& skipws(ios_base& b) { return b.setf(ios_base::skipws), b; }
inline ios_base& noskipws(ios_base& b) { return b.unsetf(ios_base::skipws), b; }
inline ios_base& dec(ios_base& b) { return b.setf(ios_base::dec, ios_base::basefield), b; }
inline ios_base& hex(ios_base& b) { return b.setf(ios_base::hex, ios_base::basefield), b; }
inline ios_base& oct(ios_base& b) { return b.setf(ios_base::oct, ios_base::basefield), b; }
inline ios_base& left(ios_base& b) { return b.setf(ios_base::left, ios_base::adjustfield), b; }
inline ios_base& right(ios_base& b) { return b.setf(ios_base::right, ios_base::adjustfield), b; }
inline ios_base& fixed(ios_base& b) { return b.setf(ios_base::fixed, ios_base::floatfield), b; }
inline ios_base& scientific(ios_base& b) { return b.setf(ios_base::scientific, ios_base::floatfield), b; }
inline ios_base& defaultfloat(ios_base& b) { return b.unsetf(ios_base::floatfield), b; }

struct _Setw
{
    int n;
};
struct _Setprecision
{
    int n;
};
template <typename C>
struct _Setfill
{
    C c;
};
inline _Setw         setw(int n) { return {n}; }
inline _Setprecision setprecision(int n) { return {n}; }
template <typename C>
inline _Setfill<C> setfill(C c)
{
    return {c};
}
template <typename C, typename T>
basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setw s)
{
    o.width(s.n);
    return o;
}
template <typename C, typename T>
basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setprecision s)
{
    o.precision(s.n);
    return o;
}
template <typename C, typename T>
basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setfill<C> s)
{
    o.fill(s.c);
    return o;
}
struct _VxNullStream : public ostream
{
    streambuf b{};
    _VxNullStream()
    {
        b.keep   = false;
        this->sb = &b;
    }
};
inline _VxNullStream vx_cout{}, vx_cerr{}, vx_clog{};
inline ostream&      cout = vx_cout;
inline ostream&      cerr = vx_cerr;
inline ostream&      clog = vx_clog;
inline istream       cin{nullptr};

template <typename C, typename T>
class istreambuf_iterator
{
    basic_streambuf<C, T>* b{nullptr};

  public:
    using iterator_category = input_iterator_tag;
    using value_type        = C;
    using difference_type   = ptrdiff_t;
    using pointer           = const C*;
    using reference         = C;
    istreambuf_iterator() {}
    istreambuf_iterator(basic_istream<C, T>& i) : b{i.rdbuf()} {}
    C                    operator*() const { return T::to_char_type(b->sgetc()); }
    istreambuf_iterator& operator++()
    {
        b->sbumpc();
        return *this;
    }
    istreambuf_iterator operator++(int)
    {
        auto o = *this;
        b->sbumpc();
        return o;
    }
    bool end() const { return !b || b->in_avail() == 0; }
    bool operator==(const istreambuf_iterator& o) const { return end() == o.end(); }
    bool operator!=(const istreambuf_iterator& o) const { return end() != o.end(); }
};
template <typename C, typename T>
class ostreambuf_iterator
{
    basic_streambuf<C, T>* b{nullptr};

  public:
    using iterator_category = output_iterator_tag;
    using value_type        = void;
    using difference_type   = ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    ostreambuf_iterator(basic_ostream<C, T>& o) : b{o.rdbuf()} {}
    ostreambuf_iterator& operator=(C c)
    {
        b->sputc(c);
        return *this;
    }
    ostreambuf_iterator& operator*() { return *this; }
    ostreambuf_iterator& operator++() { return *this; }
    ostreambuf_iterator& operator++(int) { return *this; }
};
template <typename V, typename C = char, typename T = char_traits<C>>
class ostream_iterator
{
    basic_ostream<C, T>* o{nullptr};
    const C*             d{nullptr};

  public:
    using iterator_category = output_iterator_tag;
    using value_type        = void;
    using difference_type   = ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    ostream_iterator(basic_ostream<C, T>& s, const C* dl = nullptr) : o{&s}, d{dl} {}
    ostream_iterator& operator=(const V& v)
    {
        *o << v;
        if (d)
            *o << d;
        return *this;
    }
    ostream_iterator& operator*() { return *this; }
    ostream_iterator& operator++() { return *this; }
    ostream_iterator& operator++(int) { return *this; }
};
template <typename V, typename C = char, typename T = char_traits<C>, typename D = ptrdiff_t>
class istream_iterator
{
    basic_istream<C, T>* i{nullptr};
    V                    v{};
    void                 rd()
    {
        if (i && !(*i >> v))
            i = nullptr;
    }

  public:
    using iterator_category = input_iterator_tag;
    using value_type        = V;
    using difference_type   = D;
    using pointer           = const V*;
    using reference         = const V&;
    istream_iterator() {}
    istream_iterator(basic_istream<C, T>& s) : i{&s} { rd(); }
    const V&          operator*() const { return v; }
    const V*          operator->() const { return &v; }
    istream_iterator& operator++()
    {
        rd();
        return *this;
    }
    istream_iterator operator++(int)
    {
        auto o = *this;
        rd();
        return o;
    }
    bool operator==(const istream_iterator& o) const { return i == o.i; }
    bool operator!=(const istream_iterator& o) const { return i != o.i; }
};
template <typename C>
inline bool isspace(C c, const locale&)
{
    return c == ' ' || (c >= 9 && c <= 13);
}
template <typename C>
inline C tolower(C c, const locale&)
{
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
template <typename C>
inline C toupper(C c, const locale&)
{
    return c >= 'a' && c <= 'z' ? c - 32 : c;
}
}  // namespace std
