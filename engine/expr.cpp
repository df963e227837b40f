#include <algorithm>
#include "expr.hpp"

#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>

namespace
{
template <class F>
F frombits(u128 v)
{
    F f{};
    std::memset((void*) &f, 0, sizeof f);
    std::memcpy((void*) &f, &v, sizeof(F) > 10 ? 10 : sizeof(F));
    return f;
}
template <class F>
u128 tobits(F f)
{
    u128 v = 0;
    std::memcpy(&v, (void*) &f, sizeof(F) > 10 ? 10 : sizeof(F));
    return v;
}
template <class F>
u128 fpfold(K k, unsigned w, u64 aux, const u128* v)
{
    F a = frombits<F>(v[0]);
    switch (k)
    {
        case K::FAdd: return tobits<F>(a + frombits<F>(v[1]));
        case K::FSub: return tobits<F>(a - frombits<F>(v[1]));
        case K::FMul: return tobits<F>(a * frombits<F>(v[1]));
        case K::FDiv: return tobits<F>(a / frombits<F>(v[1]));
        case K::FRem: return tobits<F>(std::fmod(a, frombits<F>(v[1])));
        case K::FSqrt: return tobits<F>(std::sqrt(a));
        case K::FMin: return tobits<F>(std::fmin(a, frombits<F>(v[1])));
        case K::FMax: return tobits<F>(std::fmax(a, frombits<F>(v[1])));
        case K::FFma: return tobits<F>(std::fma(a, frombits<F>(v[1]), frombits<F>(v[2])));
        case K::FRint:
            switch (aux)
            {
                case 0: return tobits<F>(std::nearbyint(a));
                case 1: return tobits<F>(std::floor(a));
                case 2: return tobits<F>(std::ceil(a));
                case 3: return tobits<F>(std::trunc(a));
                default: return tobits<F>(std::round(a));
            }
        case K::FOeq: return a == frombits<F>(v[1]);
        case K::FOlt: return a < frombits<F>(v[1]);
        case K::FOle: return a <= frombits<F>(v[1]);
        case K::FUno: return std::isnan(a) || std::isnan(frombits<F>(v[1]));
        case K::FToSI:
        {
            if (std::isnan(a) || !(std::fabs(a) < (F) 1.6e38))
                return (u128) 1 << (w - 1);
            if (w <= 64)
            {
                if (w == 64 && !(a >= (F) -9223372036854775808.0 && a < (F) 9223372036854775808.0))
                    return (u128) 1 << 63;
                return (u128) (i128) (int64_t) a & maskw(w);
            }
            return (u128) (i128) a & maskw(w);
        }
        case K::FToUI:
        {
            if (std::isnan(a) || !(a > (F) -1.0) || !(a < (F) 1.7e38))
                return maskw(w);
            return (u128) a & maskw(w);
        }
        case K::FToF:
            if (w == 32)
                return tobits<float>((float) a);
            if (w == 64)
                return tobits<double>((double) a);
            return tobits<long double>((long double) a);
        default: std::abort();
    }
}
template <class F>
u128 itof(K k, u128 v, unsigned cw)
{
    if (k == K::SIToF)
        return tobits<F>((F) sextv(v, cw));
    return tobits<F>((F) (v & maskw(cw)));
}
}  // namespace

u128 ExprCtx::fold(K k, unsigned w, u64 aux, const u128* v, const unsigned* cw)
{
    const u128 m = maskw(w);
    switch (k)
    {
        case K::Add: return (v[0] + v[1]) & m;
        case K::Sub: return (v[0] - v[1]) & m;
        case K::Mul: return (v[0] * v[1]) & m;
        case K::UDiv: return v[1] ? (v[0] / v[1]) & m : m;
        case K::URem: return v[1] ? (v[0] % v[1]) & m : v[0];
        case K::SDiv:
        {
            i128 a = sextv(v[0], w), b = sextv(v[1], w);
            if (b == 0)
                return a < 0 ? 1 : m;
            if (b == -1)
                return (u128) (-(u128) a) & m;
            return (u128) (a / b) & m;
        }
        case K::SRem:
        {
            i128 a = sextv(v[0], w), b = sextv(v[1], w);
            if (b == 0)
                return v[0];
            if (b == -1)
                return 0;
            return (u128) (a % b) & m;
        }
        case K::And: return v[0] & v[1];
        case K::Or: return v[0] | v[1];
        case K::Xor: return v[0] ^ v[1];
        case K::Shl: return v[1] >= w ? 0 : (v[0] << (unsigned) v[1]) & m;
        case K::LShr: return v[1] >= w ? 0 : (v[0] >> (unsigned) v[1]) & m;
        case K::AShr:
        {
            i128 a = sextv(v[0], w);
            return (u128) (a >> (v[1] >= w ? w - 1 : (unsigned) v[1])) & m;
        }
        case K::Eq: return v[0] == v[1];
        case K::Ult: return v[0] < v[1];
        case K::Ule: return v[0] <= v[1];
        case K::Slt: return sextv(v[0], cw[0]) < sextv(v[1], cw[1]);
        case K::Sle: return sextv(v[0], cw[0]) <= sextv(v[1], cw[1]);
        case K::Concat: return (v[0] << cw[1]) | v[1];
        case K::Extract: return (v[0] >> aux) & m;
        case K::ZExt: return v[0];
        case K::SExt: return (u128) sextv(v[0], cw[0]) & m;
        case K::Ite: return v[0] ? v[1] : v[2];
        case K::SIToF:
        case K::UIToF:
            if (w == 32)
                return itof<float>(k, v[0], cw[0]);
            if (w == 64)
                return itof<double>(k, v[0], cw[0]);
            return itof<long double>(k, v[0], cw[0]);
        default:
            if (cw[0] == 32)
                return fpfold<float>(k, w, aux, v) & m;
            if (cw[0] == 64)
                return fpfold<double>(k, w, aux, v) & m;
            return fpfold<long double>(k, w, aux, v) & m;
    }
}

u128 ExprCtx::knownZero(Expr* e, int depth)
{
    const u128 m = maskw(e->w);
    if (e->k == K::Const)
        return ~e->cv & m;
    if (depth > 8)
        return 0;
    auto it = kzCache.find(e->id);
    if (it != kzCache.end())
        return it->second;
    u128 r = 0;
    switch (e->k)
    {
        case K::And: r = knownZero(e->c[0], depth + 1) | knownZero(e->c[1], depth + 1); break;
        case K::Or:
        case K::Xor: r = knownZero(e->c[0], depth + 1) & knownZero(e->c[1], depth + 1); break;
        case K::ZExt: r = (m & ~maskw(e->c[0]->w)) | knownZero(e->c[0], depth + 1); break;
        case K::Concat: r = (knownZero(e->c[0], depth + 1) << e->c[1]->w) | knownZero(e->c[1], depth + 1); break;
        case K::Extract: r = (knownZero(e->c[0], depth + 1) >> e->aux) & m; break;
        case K::Ite: r = knownZero(e->c[1], depth + 1) & knownZero(e->c[2], depth + 1); break;
        case K::Shl:
            if (isC(e->c[1]))
            {
                auto s = (unsigned) e->c[1]->cv;
                r      = s >= e->w ? m : ((knownZero(e->c[0], depth + 1) << s) | maskw(s)) & m;
            }
            break;
        case K::LShr:
            if (isC(e->c[1]))
            {
                auto s = (unsigned) e->c[1]->cv;
                r      = s >= e->w ? m : (knownZero(e->c[0], depth + 1) >> s) | (m & ~(m >> s));
            }
            break;
        case K::Add:
        case K::Mul:
        {
            // trailing zeros, and (for add) leading zeros
            u128 a = knownZero(e->c[0], depth + 1), b = knownZero(e->c[1], depth + 1);
            unsigned ta = 0, tb = 0, la = 0, lb = 0;
            while (ta < e->w && ((a >> ta) & 1))
                ++ta;
            while (tb < e->w && ((b >> tb) & 1))
                ++tb;
            while (la < e->w && ((a >> (e->w - 1 - la)) & 1))
                ++la;
            while (lb < e->w && ((b >> (e->w - 1 - lb)) & 1))
                ++lb;
            unsigned t = e->k == K::Add ? std::min(ta, tb) : std::min((unsigned) e->w, ta + tb);
            r          = maskw(t) & m;
            if (e->k == K::Add)
            {
                unsigned l = std::min(la, lb);
                if (l > 1)
                    r |= m & ~(m >> (l - 1));
            }
            else
            {
                int bits = 2 * (int) e->w - (int) la - (int) lb;  // product < 2^bits
                if (bits < (int) e->w)
                    r |= m & ~maskw((unsigned) std::max(bits, 0));
            }
            break;
        }
        case K::URem:
            if (isC(e->c[1]) && e->c[1]->cv)
            {
                u128     c = e->c[1]->cv - 1;
                unsigned b = 0;
                while (c)
                {
                    ++b;
                    c >>= 1;
                }
                r = m & ~maskw(b);
            }
            break;
        case K::UDiv: 
        {
            u128 a = knownZero(e->c[0], depth + 1);
            unsigned la = 0;
            while (la < e->w && ((a >> (e->w - 1 - la)) & 1))
                ++la;
            if (la) r = m & ~(m >> la);
            // division by zero yields all ones in SMT; guarded by the executor
            break;
        }
        default: break;
    }
    r &= m;
    if (depth == 0)
        kzCache[e->id] = r;
    return r;
}

static bool commutative(K k)
{
    return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
}

Expr* ExprCtx::bin(K k, Expr* a, Expr* b)
{
    const unsigned w = a->w;
    if (a->w != b->w)
    {
        fprintf(stderr, "internal: width mismatch in bin %d: %u vs %u\n", (int) k, a->w, b->w);
        std::abort();
    }
    if (isC(a) && isC(b))
    {
        u128     v[2]  = {a->cv, b->cv};
        unsigned cw[2] = {w, w};
        return C(fold(k, w, 0, v, cw), w);
    }
    if (commutative(k) && isC(b) == false && isC(a))
        std::swap(a, b);
    else if (commutative(k) && !isC(a) && !isC(b) && a->id > b->id)
        std::swap(a, b);
    const u128 m = maskw(w);
    switch (k)
    {
        case K::Add:
            if (isC(b))
            {
                if (b->cv == 0)
                    return a;
                if (a->k == K::Add && isC(a->c[1]))
                    return bin(K::Add, a->c[0], C(a->c[1]->cv + b->cv, w));
            }
            else
            {
                if (a->k == K::Add && isC(a->c[1]))
                    return bin(K::Add, bin(K::Add, a->c[0], b), a->c[1]);
                if (b->k == K::Add && isC(b->c[1]))
                    return bin(K::Add, bin(K::Add, a, b->c[0]), b->c[1]);
                // disjoint bits: canonicalise to Or
                // a - x + x patterns
                if (a->k == K::Sub && a->c[1] == b)
                    return a->c[0];
                if (b->k == K::Sub && b->c[1] == a)
                    return b->c[0];
            }
            if (w == 1)
                return bin(K::Xor, a, b);
            break;
        case K::Sub:
            if (a == b)
                return C(0, w);
            if (isC(b))
                return bin(K::Add, a, C((~b->cv + 1) & m, w));
            if (b->k == K::Add && isC(b->c[1]))
            {
                // a - (x + c) = (a - x) + (-c)
                return bin(K::Add, bin(K::Sub, a, b->c[0]), C(~b->c[1]->cv + 1, w));
            }
            if (a->k == K::Add)
            {
                if (a->c[0] == b)
                    return a->c[1];
                if (a->c[1] == b)
                    return a->c[0];
                if (isC(a->c[1]))
                    return bin(K::Add, bin(K::Sub, a->c[0], b), a->c[1]);
            }
            if (w == 1)
                return bin(K::Xor, a, b);
            break;
        case K::Mul:
            if (isC(b))
            {
                if (b->cv == 0)
                    return b;
                if (b->cv == 1)
                    return a;
                if ((b->cv & (b->cv - 1)) == 0)
                {
                    unsigned s = 0;
                    while ((b->cv >> s) != 1)
                        ++s;
                    return bin(K::Shl, a, C(s, w));
                }
            }
            break;
        case K::UDiv:
            if (isC(b))
            {
                if (b->cv == 1)
                    return a;
                if (b->cv && (b->cv & (b->cv - 1)) == 0)
                {
                    unsigned s = 0;
                    while ((b->cv >> s) != 1)
                        ++s;
                    return bin(K::LShr, a, C(s, w));
                }
            }
            break;
        case K::URem:
            if (isC(b))
            {
                if (b->cv == 1)
                    return C(0, w);
                if (b->cv && (b->cv & (b->cv - 1)) == 0)
                    return bin(K::And, a, C(b->cv - 1, w));
            }
            break;
        case K::And:
            if (a == b)
                return a;
            if (isC(b))
            {
                if (b->cv == 0)
                    return b;
                if (b->cv == m)
                    return a;
                u128 kz = knownZero(a);
                if (((~kz) & m & ~b->cv) == 0)
                    return a;  // mask has no effect
                if (((~kz) & m & b->cv) == 0)
                    return C(0, w);
                if (a->k == K::And && isC(a->c[1]))
                    return bin(K::And, a->c[0], C(a->c[1]->cv & b->cv, w));
                // low mask -> zext(extract)
                if (w > 1 && ((b->cv + 1) & b->cv) == 0)
                {
                    unsigned n = 0;
                    while (n < w && ((b->cv >> n) & 1))
                        ++n;
                    return zext(extract(a, 0, n), w);
                }
                // contiguous mask in the middle
                {
                    unsigned lo = 0;
                    while (!((b->cv >> lo) & 1))
                        ++lo;
                    u128 t = b->cv >> lo;
                    if (((t + 1) & t) == 0)
                    {
                        unsigned n = 0;
                        while (lo + n < w && ((t >> n) & 1))
                            ++n;
                        return concat(zext(extract(a, lo, n), w - lo), C(0, lo));
                    }
                }
                if (a->k == K::Ite && (isC(a->c[1]) || isC(a->c[2])))
                    return ite(a->c[0], bin(k, a->c[1], b), bin(k, a->c[2], b));
                if (a->k == K::Concat)
                {
                    unsigned lw = a->c[1]->w;
                    return concat(bin(K::And, a->c[0], C(b->cv >> lw, a->c[0]->w)),
                                  bin(K::And, a->c[1], C(b->cv, lw)));
                }
            }
            if (w == 1)
            {
                if (a->k == K::Xor && isC(a->c[1]) && a->c[0] == b)
                    return C(0, 1);
                if (b->k == K::Xor && isC(b->c[1]) && b->c[0] == a)
                    return C(0, 1);
            }
            break;
        case K::Or:
            if (a == b)
                return a;
            if (isC(b))
            {
                if (b->cv == 0)
                    return a;
                if (b->cv == m)
                    return b;
            }
            if (w == 1)
            {
                if (a->k == K::Xor && isC(a->c[1]) && a->c[0] == b)
                    return C(1, 1);
                if (b->k == K::Xor && isC(b->c[1]) && b->c[0] == a)
                    return C(1, 1);
            }
            else
            {
                // merge disjoint fields into a concat when they split at a boundary
                u128 za = knownZero(a), zb = knownZero(b);
                if (((~za & m) & (~zb & m)) == 0)
                {
                    for (int sw = 0; sw < 2; ++sw)
                    {
                        u128 hi = sw ? ~zb & m : ~za & m, lo = sw ? ~za & m : ~zb & m;
                        Expr *he = sw ? b : a, *le = sw ? a : b;
                        if (lo == 0)
                            return he;
                        unsigned n = 0;
                        while (n < w && (lo >> n))
                            ++n;  // number of low bits used by lo
                        if (n < w && (hi & maskw(n)) == 0)
                            return concat(extract(he, n, w - n), extract(le, 0, n));
                    }
                }
                if (a->k == K::Concat && isC(b))
                {
                    unsigned lw = a->c[1]->w;
                    return concat(bin(K::Or, a->c[0], C(b->cv >> lw, a->c[0]->w)),
                                  bin(K::Or, a->c[1], C(b->cv, lw)));
                }
                if (a->k == K::Concat && b->k == K::Concat && a->c[1]->w == b->c[1]->w)
                    return concat(bin(K::Or, a->c[0], b->c[0]), bin(K::Or, a->c[1], b->c[1]));
            }
            break;
        case K::Xor:
            if (a == b)
                return C(0, w);
            if (isC(b))
            {
                if (b->cv == 0)
                    return a;
                if (a->k == K::Xor && isC(a->c[1]))
                    return bin(K::Xor, a->c[0], C(a->c[1]->cv ^ b->cv, w));
                if (w == 1)
                {
                    // negate comparison
                    if (a->k == K::Ult)
                        return cmp(K::Ule, a->c[1], a->c[0]);
                    if (a->k == K::Ule)
                        return cmp(K::Ult, a->c[1], a->c[0]);
                    if (a->k == K::Slt)
                        return cmp(K::Sle, a->c[1], a->c[0]);
                    if (a->k == K::Sle)
                        return cmp(K::Slt, a->c[1], a->c[0]);
                }
                if (a->k == K::Ite && (isC(a->c[1]) && isC(a->c[2])))
                    return ite(a->c[0], bin(k, a->c[1], b), bin(k, a->c[2], b));
            }
            break;
        case K::Shl:
            if (isC(b))
            {
                if (b->cv == 0)
                    return a;
                if (b->cv >= w)
                    return C(0, w);
                unsigned s = (unsigned) b->cv;
                return concat(extract(a, 0, w - s), C(0, s));
            }
            if (isC(a) && a->cv == 0)
                return a;
            break;
        case K::LShr:
            if (isC(b))
            {
                if (b->cv == 0)
                    return a;
                if (b->cv >= w)
                    return C(0, w);
                unsigned s = (unsigned) b->cv;
                return zext(extract(a, s, w - s), w);
            }
            if (isC(a) && a->cv == 0)
                return a;
            break;
        case K::AShr:
            if (isC(b))
            {
                if (b->cv == 0)
                    return a;
                unsigned s = b->cv >= w ? w - 1 : (unsigned) b->cv;
                return sext(extract(a, s, w - s), w);
            }
            break;
        default: break;
    }
    return mk(k, w, 0, 0, a, b);
}

Expr* ExprCtx::cmp(K k, Expr* a, Expr* b)
{
    if (a->w != b->w)
    {
        fprintf(stderr, "internal: width mismatch in cmp %d: %u vs %u\n", (int) k, a->w, b->w);
        std::abort();
    }
    unsigned w = a->w;
    if (isC(a) && isC(b))
    {
        u128     v[2]  = {a->cv, b->cv};
        unsigned cw[2] = {w, w};
        return C(fold(k, 1, 0, v, cw), 1);
    }
    if (a == b)
        return C(k == K::Eq || k == K::Ule || k == K::Sle, 1);
    if (k == K::Eq)
    {
        if (isC(a))
            std::swap(a, b);
        else if (!isC(b) && a->id > b->id)
            std::swap(a, b);
        if (isC(b))
        {
            if (w == 1)
                return b->cv ? a : not1(a);
            if (b->cv & knownZero(a))
                return C(0, 1);
            switch (a->k)
            {
                case K::ZExt:
                    if (b->cv >> a->c[0]->w)
                        return C(0, 1);
                    return cmp(K::Eq, a->c[0], C(b->cv, a->c[0]->w));
                case K::SExt:
                {
                    u128 lo = b->cv & maskw(a->c[0]->w);
                    if (((u128) sextv(lo, a->c[0]->w) & maskw(w)) != b->cv)
                        return C(0, 1);
                    return cmp(K::Eq, a->c[0], C(lo, a->c[0]->w));
                }
                case K::Add:
                    if (isC(a->c[1]))
                        return cmp(K::Eq, a->c[0], C(b->cv - a->c[1]->cv, w));
                    break;
                case K::Xor:
                    if (isC(a->c[1]))
                        return cmp(K::Eq, a->c[0], C(b->cv ^ a->c[1]->cv, w));
                    if (b->cv == 0)
                        return cmp(K::Eq, a->c[0], a->c[1]);
                    break;
                case K::Sub:
                    if (b->cv == 0)
                        return cmp(K::Eq, a->c[0], a->c[1]);
                    break;
                case K::Concat:
                {
                    unsigned lw = a->c[1]->w;
                    return and1(cmp(K::Eq, a->c[0], C(b->cv >> lw, a->c[0]->w)), cmp(K::Eq, a->c[1], C(b->cv, lw)));
                }
                case K::Or:
                    if (b->cv == 0)
                        return and1(cmp(K::Eq, a->c[0], C(0, w)), cmp(K::Eq, a->c[1], C(0, w)));
                    break;
                case K::Ite:
                    if (isC(a->c[1]) || isC(a->c[2]))
                    {
                        Expr* t = cmp(K::Eq, a->c[1], b);
                        Expr* f = cmp(K::Eq, a->c[2], b);
                        return ite(a->c[0], t, f);
                    }
                    break;
                default: break;
            }
        }
        else
        {
            if (a->k == K::ZExt && b->k == K::ZExt && a->c[0]->w == b->c[0]->w)
                return cmp(K::Eq, a->c[0], b->c[0]);
            if (a->k == K::SExt && b->k == K::SExt && a->c[0]->w == b->c[0]->w)
                return cmp(K::Eq, a->c[0], b->c[0]);
            if (a->k == K::Concat && b->k == K::Concat && a->c[1]->w == b->c[1]->w)
                return and1(cmp(K::Eq, a->c[0], b->c[0]), cmp(K::Eq, a->c[1], b->c[1]));
            if (a->k == K::Add && b->k == K::Add && a->c[1] == b->c[1])
                return cmp(K::Eq, a->c[0], b->c[0]);
            if (a->k == K::Add && isC(a->c[1]) && a->c[0] == b)
                return C(0, 1);
            if (b->k == K::Add && isC(b->c[1]) && b->c[0] == a)
                return C(0, 1);
        }
    }
    else if (k == K::Ult)
    {
        if (isC(b))
        {
            if (b->cv == 0)
                return C(0, 1);
            if (b->cv == 1)
                return cmp(K::Eq, a, C(0, w));
            u128 maxa = ~knownZero(a) & maskw(w);
            if (maxa < b->cv)
                return C(1, 1);
            if (a->k == K::ZExt)
                return cmp(K::Ult, a->c[0], C(b->cv, a->c[0]->w));  // b fits: maxa >= b
        }
        if (isC(a))
        {
            if (a->cv == maskw(w))
                return C(0, 1);
            u128 maxb = ~knownZero(b) & maskw(w);
            if (maxb <= a->cv)
                return C(0, 1);
            if (a->cv == 0)
                return not1(cmp(K::Eq, b, C(0, w)));
            if (b->k == K::ZExt)
                return cmp(K::Ult, C(a->cv, b->c[0]->w), b->c[0]);
        }
        if (a->k == K::ZExt && b->k == K::ZExt && a->c[0]->w == b->c[0]->w)
            return cmp(K::Ult, a->c[0], b->c[0]);
    }
    else if (k == K::Ule)
    {
        if (isC(a) && a->cv == 0)
            return C(1, 1);
        if (isC(b))
        {
            if (b->cv == maskw(w))
                return C(1, 1);
            return cmp(K::Ult, a, C(b->cv + 1, w));
        }
        if (isC(a))
            return cmp(K::Ult, C(a->cv - 1, w), b);
        if (a->k == K::ZExt && b->k == K::ZExt && a->c[0]->w == b->c[0]->w)
            return cmp(K::Ule, a->c[0], b->c[0]);
    }
    else if (k == K::Slt || k == K::Sle)
    {
        u128 sb = (u128) 1 << (w - 1);
        bool na = knownZero(a) & sb, nb = knownZero(b) & sb;
        if (na && nb)
            return cmp(k == K::Slt ? K::Ult : K::Ule, a, b);
        if (a->k == K::SExt && b->k == K::SExt && a->c[0]->w == b->c[0]->w)
            return cmp(k, a->c[0], b->c[0]);
        if (na && isC(b) && (b->cv & sb))
            return C(0, 1);
        if (nb && isC(a) && (a->cv & sb))
            return C(1, 1);
        // sext(x) < const that fits
        if (a->k == K::SExt && isC(b))
        {
            unsigned n = a->c[0]->w;
            i128     v = sextv(b->cv, w);
            i128     lo = -((i128) 1 << (n - 1)), hi = ((i128) 1 << (n - 1)) - 1;
            if (v < lo)
                return C(0, 1);
            if (v > hi)
                return C(1, 1);
            return cmp(k, a->c[0], C((u128) v, n));
        }
        if (b->k == K::SExt && isC(a))
        {
            unsigned n = b->c[0]->w;
            i128     v = sextv(a->cv, w);
            i128     lo = -((i128) 1 << (n - 1)), hi = ((i128) 1 << (n - 1)) - 1;
            if (v < lo)
                return C(1, 1);
            if (v > hi)
                return C(0, 1);
            return cmp(k, C((u128) v, n), b->c[0]);
        }
    }
    return mk(k, 1, 0, 0, a, b);
}

Expr* ExprCtx::extract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w)
        return a;
    if (w == 0 || lo + w > a->w)
    {
        fprintf(stderr, "internal: bad extract %u+%u of %u\n", lo, w, a->w);
        std::abort();
    }
    switch (a->k)
    {
        case K::Const: return C(a->cv >> lo, w);
        case K::Extract: return extract(a->c[0], (unsigned) a->aux + lo, w);
        case K::Concat:
        {
            unsigned lw = a->c[1]->w;
            if (lo + w <= lw)
                return extract(a->c[1], lo, w);
            if (lo >= lw)
                return extract(a->c[0], lo - lw, w);
            return concat(extract(a->c[0], 0, lo + w - lw), extract(a->c[1], lo, lw - lo));
        }
        case K::ZExt:
        {
            unsigned iw = a->c[0]->w;
            if (lo + w <= iw)
                return extract(a->c[0], lo, w);
            if (lo >= iw)
                return C(0, w);
            return zext(extract(a->c[0], lo, iw - lo), w);
        }
        case K::SExt:
        {
            unsigned iw = a->c[0]->w;
            if (lo + w <= iw)
                return extract(a->c[0], lo, w);
            if (lo < iw)
                return sext(extract(a->c[0], lo, iw - lo), w);
            return sext(extract(a->c[0], iw - 1, 1), w);
        }
        case K::And:
        case K::Or:
        case K::Xor: return bin(a->k, extract(a->c[0], lo, w), extract(a->c[1], lo, w));
        case K::Add:
        case K::Sub:
        case K::Mul:
            if (lo == 0)
                return bin(a->k, extract(a->c[0], 0, w), extract(a->c[1], 0, w));
            break;
        case K::Ite: return ite(a->c[0], extract(a->c[1], lo, w), extract(a->c[2], lo, w));
        default: break;
    }
    return mk(K::Extract, w, lo, 0, a);
}

Expr* ExprCtx::concat(Expr* hi, Expr* lo)
{
    if (hi == nullptr)
        return lo;
    unsigned w = hi->w + lo->w;
    if (w > 128)
    {
        fprintf(stderr, "internal: concat wider than 128\n");
        std::abort();
    }
    if (isC(hi) && isC(lo))
        return C((hi->cv << lo->w) | lo->cv, w);
    if (isC(hi) && hi->cv == 0)
        return zext(lo, w);
    if (hi->k == K::ZExt)
        return zext(concat(hi->c[0], lo), w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->c[0] == lo->c[0] && hi->aux == lo->aux + lo->w)
        return extract(hi->c[0], (unsigned) lo->aux, w);
    // hi = extract of x just above lo = x's low part handled by Extract==whole? lo is not Extract only if offset 0 & full
    if (lo->k == K::Concat && hi->k == K::Extract && lo->c[0]->k == K::Extract && lo->c[0]->c[0] == hi->c[0] &&
        hi->aux == lo->c[0]->aux + lo->c[0]->w)
        return concat(extract(hi->c[0], (unsigned) lo->c[0]->aux, hi->w + lo->c[0]->w), lo->c[1]);
    if (lo->k == K::Concat && isC(hi) && isC(lo->c[0]))
        return concat(C((hi->cv << lo->c[0]->w) | lo->c[0]->cv, hi->w + lo->c[0]->w), lo->c[1]);
    // right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if (hi->k == K::Concat)
        return concat(hi->c[0], concat(hi->c[1], lo));
    if (hi->k == K::Ite && lo->k == K::Ite && hi->c[0] == lo->c[0])
        return ite(hi->c[0], concat(hi->c[1], lo->c[1]), concat(hi->c[2], lo->c[2]));
    if (hi->k == K::Ite && isC(lo) && (isC(hi->c[1]) && isC(hi->c[2])))
        return ite(hi->c[0], concat(hi->c[1], lo), concat(hi->c[2], lo));
    return mk(K::Concat, w, 0, 0, hi, lo);
}

Expr* ExprCtx::zext(Expr* a, unsigned w)
{
    if (w == a->w)
        return a;
    if (isC(a))
        return C(a->cv, w);
    if (a->k == K::ZExt)
        return zext(a->c[0], w);
    if (a->k == K::Ite && isC(a->c[1]) && isC(a->c[2]))
        return ite(a->c[0], zext(a->c[1], w), zext(a->c[2], w));
    return mk(K::ZExt, w, 0, 0, a);
}

Expr* ExprCtx::sext(Expr* a, unsigned w)
{
    if (w == a->w)
        return a;
    if (isC(a))
        return C((u128) sextv(a->cv, a->w), w);
    if (a->k == K::SExt)
        return sext(a->c[0], w);
    if (knownZero(a) & ((u128) 1 << (a->w - 1)))
        return zext(a, w);
    if (a->k == K::Ite && isC(a->c[1]) && isC(a->c[2]))
        return ite(a->c[0], sext(a->c[1], w), sext(a->c[2], w));
    return mk(K::SExt, w, 0, 0, a);
}

Expr* ExprCtx::ite(Expr* c, Expr* a, Expr* b)
{
    if (isC(c))
        return c->cv ? a : b;
    if (a == b)
        return a;
    if (a->w == 1)
    {
        if (isC(a) && isC(b))
            return a->cv ? c : not1(c);
        if (isC(a))
            return a->cv ? or1(c, b) : and1(not1(c), b);
        if (isC(b))
            return b->cv ? or1(not1(c), a) : and1(c, a);
        if (a == c)
            return or1(c, b);
        if (b == c)
            return and1(c, a);
    }
    if (c->k == K::Xor && isC(c->c[1]))
        return ite(c->c[0], b, a);
    if (a->k == K::Ite && a->c[0] == c)
        return ite(c, a->c[1], b);
    if (b->k == K::Ite && b->c[0] == c)
        return ite(c, a, b->c[2]);
    if (b->k == K::Ite && b->c[1] == a)
        return ite(or1(c, b->c[0]), a, b->c[2]);
    // c: x == const, a == that const, b == x
    if (c->k == K::Eq && ((c->c[0] == b && c->c[1] == a) || (c->c[0] == a && c->c[1] == b)))
        return b;
    return mk(K::Ite, a->w, 0, 0, c, a, b);
}

static bool signFlip(Expr* e) { return e->w == 64 && e->k == K::Xor && ExprCtx::isC(e->c[1]) && e->c[1]->cv == (u128) 1 << 63; }
static bool absMask(Expr* e) { return e->w == 64 && e->k == K::And && ExprCtx::isC(e->c[1]) && e->c[1]->cv == ((u128) 1 << 63) - 1; }

Expr* ExprCtx::fop(K k, unsigned w, u64 aux, Expr* a, Expr* b, Expr* d)
{
    if (isC(a) && (!b || isC(b)) && (!d || isC(d)))
    {
        u128     v[3]  = {a->cv, b ? b->cv : 0, d ? d->cv : 0};
        unsigned cw[3] = {a->w, b ? b->w : 0u, d ? d->w : 0u};
        return C(fold(k, w, aux, v, cw), w);
    }
    // a + (-b) == a - b and a - (-b) == a + b, rounding and special values included
    if ((k == K::FAdd || k == K::FSub) && w == 64)
    {
        if (signFlip(b))
            return fop(k == K::FAdd ? K::FSub : K::FAdd, w, aux, a, b->c[0], d);
        if (k == K::FAdd && signFlip(a))
            return fop(K::FSub, w, aux, b, a->c[0], d);
    }
    if (Expr* r = dyadicOp(k, w, aux, a, b))
        return r;
    if (k == K::FOeq || k == K::FOlt || k == K::FOle || k == K::FUno)
        if (Expr* r = monotoneCmp(k, a, b))
            return r;
    if ((k == K::FAdd || k == K::FMul) && a->id > b->id)
        std::swap(a, b);
    return mk(k, w, aux, 0, a, b, d);
}

// ------------------------------------------------------------------ monotone chains of operations on doubles
// Rounded addition of, and multiplication by, finite constants is monotone, so comparing such a chain over x with a
// constant is comparing x with some other constant, which is found by bisection over all doubles.
Expr* ExprCtx::monotoneCmp(K k, Expr* a, Expr* b)
{
    if (a->w != 64 || isC(a) == isC(b))
        return nullptr;
    const bool   left = isC(b);  // the chain is the left operand
    Expr*        x    = left ? a : b;
    const double c    = frombits<double>((left ? b : a)->cv);
    if (std::isnan(c))
        return C(k == K::FUno, 1);
    struct op
    {
        int    kind;  // 0: x + c, 1: x - c, 2: c - x, 3: x * c, 4: x / c, 5: -x
        double c;
    };
    std::vector<op> ops;
    bool            up = true;
    for (;;)
    {
        if (signFlip(x))
        {
            ops.push_back({5, 0});
            up = !up;
            x  = x->c[0];
            continue;
        }
        if (x->k != K::FAdd && x->k != K::FSub && x->k != K::FMul && x->k != K::FDiv)
            break;
        const int ci = isC(x->c[0]) ? 0 : isC(x->c[1]) ? 1 : -1;
        if (ci < 0)
            break;
        const double v = frombits<double>(x->c[ci]->cv);
        if (!std::isfinite(v) || x->c[1 - ci]->w != 64)
            break;
        if (x->k == K::FAdd)
            ops.push_back({0, v});
        else if (x->k == K::FSub)
        {
            ops.push_back({ci == 1 ? 1 : 2, v});
            up ^= ci == 0;
        }
        else
        {
            if (v == 0 || (x->k == K::FDiv && ci == 0))
                break;
            ops.push_back({x->k == K::FMul ? 3 : 4, v});
            up ^= v < 0;
        }
        x = x->c[1 - ci];
    }
    if (ops.empty() && x->hasFP)
        return nullptr;
    // not a NaN, as bit patterns where possible
    const u128 INF = (u128) 0x7ff0000000000000ull, NINF = (u128) 0xfff0000000000000ull, SIGN = (u128) 1 << 63;
    Expr*      nan = x->hasFP ? mk(K::FUno, 1, 0, 0, x, x, nullptr) : or1(cmp(K::Ult, C(NINF, 64), x), and1(cmp(K::Ult, C(INF, 64), x), cmp(K::Ult, x, C(SIGN, 64))));
    if (k == K::FUno)
        return nan;
    const auto f = [&](double v) {
        for (auto it = ops.rbegin(); it != ops.rend(); ++it)
            switch (it->kind)
            {
                case 0: v = v + it->c; break;
                case 1: v = v - it->c; break;
                case 2: v = it->c - v; break;
                case 3: v = v * it->c; break;
                case 4: v = v / it->c; break;
                default: v = -v;
            }
        return v;
    };
    const auto val = [&](int64_t n) { return frombits<double>(n >= 0 ? (u128) (u64) n : (u128) ((u64) 0x8000000000000000ull + (u64) (-(n + 1)))); };  // doubles in order
    const int64_t lo = -(int64_t) 0x7ff0000000000000ll - 1, hi = 0x7ff0000000000000ll;
    // the set where pred(f(x)) holds is a lower (or upper) set
    const auto below = [&](auto pred) -> Expr* {
        if (up)
        {
            if (!pred(f(val(lo))))
                return C(0, 1);
            if (pred(f(val(hi))))
                return not1(nan);
            int64_t l = lo, h = hi;  // pred(l), !pred(h)
            while ((__int128) h - l > 1)
            {
                const int64_t m = (int64_t) (((__int128) l + h) >> 1);
                (pred(f(val(m))) ? l : h) = m;
            }
            return fcmpC(x, val(l), true);
        }
        if (!pred(f(val(hi))))
            return C(0, 1);
        if (pred(f(val(lo))))
            return not1(nan);
        int64_t l = lo, h = hi;  // !pred(l), pred(h)
        while ((__int128) h - l > 1)
        {
            const int64_t m = (int64_t) (((__int128) l + h) >> 1);
            (pred(f(val(m))) ? h : l) = m;
        }
        return fcmpC(x, val(h), false);
    };
    const auto above = [&](auto pred) -> Expr* {
        up      = !up;
        Expr* r = below(pred);
        up      = !up;
        return r;
    };
    switch (k)
    {
        case K::FOlt: return left ? below([&](double v) { return v < c; }) : above([&](double v) { return v > c; });
        case K::FOle: return left ? below([&](double v) { return v <= c; }) : above([&](double v) { return v >= c; });
        default: return and1(below([&](double v) { return v <= c; }), above([&](double v) { return v >= c; }));
    }
}

// x <= t or x >= t
Expr* ExprCtx::fcmpC(Expr* x, double t, bool le)
{
    if (x->hasFP)
        return le ? mk(K::FOle, 1, 0, 0, x, C(tobits<double>(t), 64), nullptr) : mk(K::FOle, 1, 0, 0, C(tobits<double>(t), 64), x, nullptr);
    const u128 INF = (u128) 0x7ff0000000000000ull, NINF = (u128) 0xfff0000000000000ull, SIGN = (u128) 1 << 63;
    if (t == 0)
        t = le ? 0.0 : -0.0;
    Expr*      T  = C(tobits<double>(t), 64);
    const auto in = [&](Expr* l, Expr* h) { return and1(cmp(K::Ule, l, x), cmp(K::Ule, x, h)); };
    if (le)
        return t >= 0 ? or1(cmp(K::Ule, x, T), in(C(SIGN, 64), C(NINF, 64))) : in(T, C(NINF, 64));
    return t > 0 ? in(T, C(INF, 64)) : or1(cmp(K::Ule, x, C(INF, 64)), in(C(SIGN, 64), T));
}

// ------------------------------------------------------------------ exact fixed-point reasoning on doubles
// Doubles of the form i * 2^-s with |i| <= 2^53 are represented exactly; sums, differences, comparisons and (some)
// products of such values are rewritten to integer arithmetic.  Results never are negative zero (see below).
static const i128 DY_MAX = (i128) 1 << 53;

static bool sRange(Expr* e, i128& lo, i128& hi, int depth = 0)
{
    const unsigned w = e->w;
    if (w > 64 || depth > 12)
        return false;
    const i128 smin = -((i128) 1 << (w - 1)), smax = ((i128) 1 << (w - 1)) - 1;
    lo = smin;
    hi = smax;
    i128 al, ah, bl, bh;
    switch (e->k)
    {
        case K::Const: lo = hi = sextv(e->cv, w); return true;
        case K::ZExt:
            lo = 0;
            hi = ((i128) 1 << e->c[0]->w) - 1;
            return true;
        case K::SExt: return sRange(e->c[0], lo, hi, depth + 1);
        case K::Add:
        case K::Sub:
        case K::Mul:
        {
            if (!sRange(e->c[0], al, ah, depth + 1) || !sRange(e->c[1], bl, bh, depth + 1))
                return true;
            i128 l, h;
            if (e->k == K::Add)
                l = al + bl, h = ah + bh;
            else if (e->k == K::Sub)
                l = al - bh, h = ah - bl;
            else
            {
                i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh};
                l = *std::min_element(p, p + 4);
                h = *std::max_element(p, p + 4);
            }
            if (l >= smin && h <= smax)
                lo = l, hi = h;
            return true;
        }
        case K::Ite:
            if (sRange(e->c[1], al, ah, depth + 1) && sRange(e->c[2], bl, bh, depth + 1))
                lo = std::min(al, bl), hi = std::max(ah, bh);
            return true;
        case K::Extract:
            if (e->aux == 0 && sRange(e->c[0], al, ah, depth + 1) && al >= smin && ah <= smax)
                lo = al, hi = ah;
            return true;
        default: return true;
    }
}

// e (binary64) == i * 2^-sh exactly, i a 64-bit signed expression with |i| <= 2^53, and e is not -0.0
bool ExprCtx::dyadic(Expr* e, Expr*& i, int& sh, i128& lo, i128& hi)
{
    if (e->w != 64)
        return false;
    if (isC(e))
    {
        double d = frombits<double>(e->cv);
        if (!std::isfinite(d) || (d == 0 && std::signbit(d)))
            return false;
        sh = 0;
        while (d != std::floor(d) && sh <= 40)
        {
            d *= 2;
            ++sh;
        }
        if (sh > 40 || std::fabs(d) > 9007199254740992.0)
            return false;
        lo = hi = (i128) (int64_t) d;
        i = C((u128) lo, 64);
        return true;
    }
    if (e->k == K::SIToF && e->c[0]->w <= 64)
    {
        if (!sRange(e->c[0], lo, hi) || lo < -DY_MAX || hi > DY_MAX)
            return false;
        i  = sext(e->c[0], 64);
        sh = 0;
        return true;
    }
    if (e->k == K::UIToF && e->c[0]->w <= 64)
    {
        Expr* x = e->c[0];
        if (x->w < 64)
            x = zext(x, 64);
        if (!sRange(x, lo, hi) || lo < 0 || hi > DY_MAX)
            return false;
        i  = x;
        sh = 0;
        return true;
    }
    if (e->k == K::FMul && (isC(e->c[0]) || isC(e->c[1])))
    {
        Expr* c = isC(e->c[0]) ? e->c[0] : e->c[1];
        Expr* o = c == e->c[0] ? e->c[1] : e->c[0];
        double d = frombits<double>(c->cv);
        int    ex;
        if (!(d > 0 && d < 1) || std::frexp(d, &ex) != 0.5 || ex < -40)
            return false;
        if (o->k == K::FMul || !dyadic(o, i, sh, lo, hi))
            return false;
        sh += 1 - ex;
        return sh <= 40;
    }
    if (signFlip(e))
    {
        i128 l, h;
        if (!dyadic(e->c[0], i, sh, l, h) || (l <= 0 && h >= 0))
            return false;
        lo = -h;
        hi = -l;
        i  = bin(K::Sub, C(0, 64), i);
        return true;
    }
    if (absMask(e))
    {
        i128 l, h;
        if (!dyadic(e->c[0], i, sh, l, h))
            return false;
        lo = l > 0 ? l : h < 0 ? -h : 0;
        hi = std::max(l < 0 ? -l : l, h < 0 ? -h : h);
        if (l < 0)
            i = h < 0 ? bin(K::Sub, C(0, 64), i) : ite(cmp(K::Slt, i, C(0, 64)), bin(K::Sub, C(0, 64), i), i);
        return true;
    }
    if (e->k == K::Ite)
    {
        static int depth = 0;
        if (depth > 5)
            return false;
        ++depth;
        Expr *x, *y;
        int   sx, sy;
        i128  xl, xh, yl, yh;
        bool  ok = dyadic(e->c[1], x, sx, xl, xh) && dyadic(e->c[2], y, sy, yl, yh);
        --depth;
        if (!ok)
            return false;
        sh            = std::max(sx, sy);
        const i128 fx = (i128) 1 << (sh - sx), fy = (i128) 1 << (sh - sy);
        lo            = std::min(xl * fx, yl * fy);
        hi            = std::max(xh * fx, yh * fy);
        if (lo < -DY_MAX || hi > DY_MAX)
            return false;
        if (sx != sh)
            x = bin(K::Shl, x, C(sh - sx, 64));
        if (sy != sh)
            y = bin(K::Shl, y, C(sh - sy, 64));
        i = ite(e->c[0], x, y);
        return true;
    }
    return false;
}

Expr* ExprCtx::mkDyadic(Expr* i, int sh)
{
    if (isC(i))
        return C(tobits<double>(std::ldexp((double) (int64_t) i->cv, -sh)), 64);
    Expr* f = mk(K::SIToF, 64, 0, 0, i, nullptr, nullptr);
    if (sh == 0)
        return f;
    Expr* c = C(tobits<double>(std::ldexp(1.0, -sh)), 64);
    return f->id > c->id ? mk(K::FMul, 64, 0, 0, c, f, nullptr) : mk(K::FMul, 64, 0, 0, f, c, nullptr);
}

Expr* ExprCtx::dyadicOp(K k, unsigned w, u64 aux, Expr* a, Expr* b)
{
    Expr *x, *y;
    int   sx, sy;
    i128  xl, xh, yl, yh;
    switch (k)
    {
        case K::FAdd:
        case K::FSub:
        case K::FOeq:
        case K::FOlt:
        case K::FOle:
        case K::FUno:
        {
            if (!dyadic(a, x, sx, xl, xh))
            {
                // comparison of a constant that is not representable here with a fixed-point value
                if (isC(a) && a->w == 64 && (k == K::FOeq || k == K::FOlt || k == K::FOle || k == K::FUno) && dyadic(b, y, sy, yl, yh))
                {
                    double d = frombits<double>(a->cv);
                    if (std::isnan(d))
                        return C(k == K::FUno, 1);
                    if (k == K::FUno)
                        return C(0, 1);
                    d = std::ldexp(d, sy);
                    if (d == 0)
                        return nullptr;
                    if (d == std::floor(d) && std::fabs(d) < 1e17)
                        return k == K::FOeq ? cmp(K::Eq, y, C((u128) (i128) (int64_t) d, 64)) : cmp(k == K::FOlt ? K::Slt : K::Sle, C((u128) (i128) (int64_t) d, 64), y);
                    if (k == K::FOeq)
                        return C(0, 1);
                    if (std::fabs(d) >= 1e17)
                        return C(d < 0, 1);
                    return cmp(K::Sle, C((u128) (i128) (int64_t) std::ceil(d), 64), y);
                }
                return nullptr;
            }
            if (!dyadic(b, y, sy, yl, yh))
            {
                if (isC(b) && b->w == 64 && (k == K::FOeq || k == K::FOlt || k == K::FOle || k == K::FUno))
                {
                    double d = frombits<double>(b->cv);
                    if (std::isnan(d))
                        return C(k == K::FUno, 1);
                    if (k == K::FUno)
                        return C(0, 1);
                    d = std::ldexp(d, sx);
                    if (d == 0)
                        return nullptr;
                    if (d == std::floor(d) && std::fabs(d) < 1e17)
                        return k == K::FOeq ? cmp(K::Eq, x, C((u128) (i128) (int64_t) d, 64)) : cmp(k == K::FOlt ? K::Slt : K::Sle, x, C((u128) (i128) (int64_t) d, 64));
                    if (k == K::FOeq)
                        return C(0, 1);
                    if (std::fabs(d) >= 1e17)
                        return C(d > 0, 1);
                    return cmp(K::Sle, x, C((u128) (i128) (int64_t) std::floor(d), 64));
                }
                return nullptr;
            }
            if (k == K::FUno)
                return C(0, 1);
            const int s = std::max(sx, sy);
            const i128 fx = (i128) 1 << (s - sx), fy = (i128) 1 << (s - sy);
            xl *= fx, xh *= fx, yl *= fy, yh *= fy;
            const i128 big = (i128) 1 << 62;
            if (xl < -big || xh > big || yl < -big || yh > big)
                return nullptr;
            x = bin(K::Shl, x, C((u128) (s - sx), 64));
            y = bin(K::Shl, y, C((u128) (s - sy), 64));
            if (k == K::FOeq)
                return cmp(K::Eq, x, y);
            if (k == K::FOlt)
                return cmp(K::Slt, x, y);
            if (k == K::FOle)
                return cmp(K::Sle, x, y);
            const i128 l = k == K::FAdd ? xl + yl : xl - yh, h = k == K::FAdd ? xh + yh : xh - yl;
            if (l < -DY_MAX || h > DY_MAX)
                return nullptr;
            return mkDyadic(bin(k == K::FAdd ? K::Add : K::Sub, x, y), s);
        }
        case K::FMul:
        {
            if (!dyadic(a, x, sx, xl, xh) || !dyadic(b, y, sy, yl, yh))
                return nullptr;
            // a zero product of a negative factor would be -0.0
            if (!(xl > 0 || yl > 0 || (xl >= 0 && yl >= 0)))
                return nullptr;
            if (!isC(x) && !isC(y) && (xh - xl > 4096 || yh - yl > 4096))
                return nullptr;
            if (sx + sy > 40)
                return nullptr;
            // keep the canonical form of scaled values
            if ((isC(a) && xl == 1 && sx > 0 && b->k != K::FMul) || (isC(b) && yl == 1 && sy > 0 && a->k != K::FMul))
                return nullptr;
            i128 p[4] = {xl * yl, xl * yh, xh * yl, xh * yh};
            if (*std::min_element(p, p + 4) < -DY_MAX || *std::max_element(p, p + 4) > DY_MAX)
                return nullptr;
            return mkDyadic(bin(K::Mul, x, y), sx + sy);
        }
        case K::FDiv:
        {
            if (!isC(b) || b->w != 64)
                return nullptr;
            double d = frombits<double>(b->cv);
            int    ex;
            if (!(d > 0) || !std::isfinite(d) || std::frexp(d, &ex) != 0.5 || ex > 40 || ex < -40)
                return nullptr;
            return fop(K::FMul, w, 0, a, C(tobits<double>(1.0 / d), 64));
        }
        case K::FRint:
            if (!dyadic(a, x, sx, xl, xh))
                return nullptr;
            if (sx == 0)
                return a;
            if (aux == 1)
                return xl >= 0 ? mkDyadic(bin(K::AShr, x, C((u128) sx, 64)), 0) : nullptr;
            return nullptr;
        case K::FToSI:
        case K::FToUI:
            if (a->w != 64 || !dyadic(a, x, sx, xl, xh) || sx != 0)
                return nullptr;
            if (k == K::FToUI && xl < 0)
                return nullptr;
            if (w < 64)
            {
                const i128 mx = k == K::FToUI ? ((i128) 1 << w) - 1 : ((i128) 1 << (w - 1)) - 1, mn = k == K::FToUI ? 0 : -((i128) 1 << (w - 1));
                if (xl < mn || xh > mx)
                    return nullptr;
                return extract(x, 0, w);
            }
            return w == 64 ? x : nullptr;
        default: return nullptr;
    }
}
