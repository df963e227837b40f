#include "bitblast.hpp"

using namespace Minisat;
using BBV = std::vector<Lit>;

void BitBlaster::reset()
{
    delete s;
    s = new Minisat::Solver;
    s->verbosity = 0;
    bits.clear();
    own.clear();
    andH.clear();
    xorH.clear();
    iteH.clear();
    mark.clear();
    Var v = s->newVar(l_Undef, false);
    T     = mkLit(v);
    s->addClause(T);
    ++resets;
}
Lit BitBlaster::fresh()
{
    Var v = s->newVar(l_Undef, false);
    Lit l = mkLit(v);
    use(l);
    return l;
}
Lit BitBlaster::gAnd(Lit a, Lit b)
{
    if (a == T)
        return b;
    if (b == T)
        return a;
    if (a == ~T || b == ~T || a == ~b)
        return ~T;
    if (a == b)
        return a;
    if (b < a)
        std::swap(a, b);
    u64  key = ((u64) (uint32_t) toInt(a) << 32) | (uint32_t) toInt(b);
    auto it  = andH.find(key);
    if (it != andH.end())
    {
        use(it->second);
        return it->second;
    }
    Lit r = fresh();
    s->addClause(~r, a);
    s->addClause(~r, b);
    s->addClause(r, ~a, ~b);
    return andH[key] = r;
}
Lit BitBlaster::gXor(Lit a, Lit b)
{
    if (a == T)
        return ~b;
    if (a == ~T)
        return b;
    if (b == T)
        return ~a;
    if (b == ~T)
        return a;
    if (a == b)
        return ~T;
    if (a == ~b)
        return T;
    bool flip = sign(a) ^ sign(b);
    a         = mkLit(var(a));
    b         = mkLit(var(b));
    if (b < a)
        std::swap(a, b);
    u64  key = ((u64) (uint32_t) toInt(a) << 32) | (uint32_t) toInt(b);
    auto it  = xorH.find(key);
    Lit  r;
    if (it != xorH.end())
    {
        r = it->second;
        use(r);
    }
    else
    {
        r = fresh();
        s->addClause(~r, a, b);
        s->addClause(~r, ~a, ~b);
        s->addClause(r, ~a, b);
        s->addClause(r, a, ~b);
        xorH[key] = r;
    }
    return flip ? ~r : r;
}
Lit BitBlaster::gIte(Lit c, Lit a, Lit b)
{
    if (c == T)
        return a;
    if (c == ~T)
        return b;
    if (a == b)
        return a;
    if (a == ~b)
        return ~gXor(c, a);
    if (a == T || a == c)
        return gOr(c, b);
    if (a == ~T || a == ~c)
        return gAnd(~c, b);
    if (b == T || b == ~c)
        return gOr(~c, a);
    if (b == ~T || b == c)
        return gAnd(c, a);
    if (sign(c))
    {
        c = ~c;
        std::swap(a, b);
    }
    int         k[3] = {toInt(c), toInt(a), toInt(b)};
    std::string key((const char*) k, sizeof k);
    auto        it = iteH.find(key);
    if (it != iteH.end())
    {
        use(it->second);
        return it->second;
    }
    Lit r = fresh();
    s->addClause(~c, ~a, r);
    s->addClause(~c, a, ~r);
    s->addClause(c, ~b, r);
    s->addClause(c, b, ~r);
    s->addClause(~a, ~b, r);
    s->addClause(a, b, ~r);
    return iteH[key] = r;
}
Lit BitBlaster::gMaj(Lit a, Lit b, Lit c)
{
    if (a == T)
        return gOr(b, c);
    if (a == ~T)
        return gAnd(b, c);
    if (b == T)
        return gOr(a, c);
    if (b == ~T)
        return gAnd(a, c);
    if (c == T)
        return gOr(a, b);
    if (c == ~T)
        return gAnd(a, b);
    if (a == b)
        return a;
    if (a == ~b)
        return c;
    if (a == c)
        return a;
    if (a == ~c)
        return b;
    if (b == c)
        return b;
    if (b == ~c)
        return a;
    Lit r = fresh();
    s->addClause(~a, ~b, r);
    s->addClause(~a, ~c, r);
    s->addClause(~b, ~c, r);
    s->addClause(a, b, ~r);
    s->addClause(a, c, ~r);
    s->addClause(b, c, ~r);
    return r;
}
BBV BitBlaster::add(const V& a, const V& b, Lit cin)
{
    V r(a.size());
    for (size_t i = 0; i < a.size(); ++i)
    {
        Lit x = gXor(a[i], b[i]);
        r[i]  = gXor(x, cin);
        if (i + 1 < a.size())
            cin = gMaj(a[i], b[i], cin);
    }
    return r;
}
BBV BitBlaster::inv(const V& a)
{
    V r = a;
    for (auto& l : r)
        l = ~l;
    return r;
}
BBV BitBlaster::neg(const V& a)
{
    return add(inv(a), V(a.size(), ~T), T);
}
BBV BitBlaster::mul(const V& a, const V& b)
{
    size_t n = a.size();
    V      r(n, ~T);
    // prefer the operand with more constant-zero bits as multiplier
    auto zeros = [&](const V& v)
    {
        size_t z = 0;
        for (auto l : v)
            z += l == ~T;
        return z;
    };
    const V& m = zeros(a) > zeros(b) ? a : b;
    const V& x = &m == &a ? b : a;
    for (size_t i = 0; i < n; ++i)
    {
        if (m[i] == ~T)
            continue;
        V p(n, ~T);
        for (size_t j = i; j < n; ++j)
            p[j] = gAnd(x[j - i], m[i]);
        r = add(r, p, ~T);
    }
    return r;
}
Lit BitBlaster::ult(const V& a, const V& b)
{
    Lit r = ~T;
    for (size_t i = 0; i < a.size(); ++i)
        r = gMaj(~a[i], b[i], r);
    return r;
}
Lit BitBlaster::eq(const V& a, const V& b)
{
    Lit r = T;
    for (size_t i = 0; i < a.size(); ++i)
        r = gAnd(r, ~gXor(a[i], b[i]));
    return r;
}
BBV BitBlaster::ite(Lit c, const V& a, const V& b)
{
    V r(a.size());
    for (size_t i = 0; i < a.size(); ++i)
        r[i] = gIte(c, a[i], b[i]);
    return r;
}
void BitBlaster::udivrem(const V& a, const V& b, V& q, V& r)
{
    // restoring division; b == 0 gives q = all ones, r = a (SMT-LIB semantics)
    size_t n = a.size();
    q.assign(n, ~T);
    V rem(n + 1, ~T), bx = b;
    bx.push_back(~T);
    for (size_t i = n; i-- > 0;)
    {
        for (size_t j = n; j > 0; --j)
            rem[j] = rem[j - 1];
        rem[0] = a[i];
        Lit ge = ~ult(rem, bx);
        V   d  = add(rem, inv(bx), T);
        rem    = ite(ge, d, rem);
        q[i]   = ge;
    }
    rem.resize(n);
    r     = rem;
    Lit z = eq(b, V(n, ~T));
    q     = ite(z, V(n, T), q);
    r     = ite(z, a, r);
}
BBV BitBlaster::shift(const V& a, const V& b, int mode)
{
    size_t n    = a.size();
    Lit    fill = mode == 2 ? a[n - 1] : ~T;
    V      r    = a;
    Lit    big  = ~T;
    for (size_t i = 0; i < b.size(); ++i)
    {
        if (i >= 32 || (1ull << i) >= n)
        {
            big = gOr(big, b[i]);
            continue;
        }
        size_t sh = 1ull << i;
        V      t(n);
        for (size_t j = 0; j < n; ++j)
        {
            if (mode == 0)
                t[j] = j >= sh ? r[j - sh] : ~T;
            else
                t[j] = j + sh < n ? r[j + sh] : fill;
        }
        r = ite(b[i], t, r);
    }
    return ite(big, V(n, fill), r);
}

void BitBlaster::node(Expr* e, std::vector<Lit>& r)
{
    auto B = [&](int i) -> const V& { return bits[e->c[i]->id]; };
    unsigned w = e->w;
    switch (e->k)
    {
        case K::Const:
            r.resize(w);
            for (unsigned i = 0; i < w; ++i)
                r[i] = ((e->cv >> i) & 1) ? T : ~T;
            return;
        case K::Sym:
            r.resize(w);
            for (unsigned i = 0; i < w; ++i)
                r[i] = fresh();
            return;
        case K::Add: r = add(B(0), B(1), ~T); return;
        case K::Sub: r = add(B(0), inv(B(1)), T); return;
        case K::Mul: r = mul(B(0), B(1)); return;
        case K::UDiv:
        {
            V q, m;
            udivrem(B(0), B(1), q, m);
            r = q;
            return;
        }
        case K::URem:
        {
            V q, m;
            udivrem(B(0), B(1), q, m);
            r = m;
            return;
        }
        case K::SDiv:
        case K::SRem:
        {
            V   a = B(0), b = B(1);
            Lit sa = a[w - 1], sb = b[w - 1];
            V   ua = ite(sa, neg(a), a), ub = ite(sb, neg(b), b);
            V   q, m;
            udivrem(ua, ub, q, m);
            if (e->k == K::SDiv)
                r = ite(gXor(sa, sb), neg(q), q);
            else
                r = ite(sa, neg(m), m);
            return;
        }
        case K::And:
            r.resize(w);
            for (unsigned i = 0; i < w; ++i)
                r[i] = gAnd(B(0)[i], B(1)[i]);
            return;
        case K::Or:
            r.resize(w);
            for (unsigned i = 0; i < w; ++i)
                r[i] = gOr(B(0)[i], B(1)[i]);
            return;
        case K::Xor:
            r.resize(w);
            for (unsigned i = 0; i < w; ++i)
                r[i] = gXor(B(0)[i], B(1)[i]);
            return;
        case K::Shl: r = shift(B(0), B(1), 0); return;
        case K::LShr: r = shift(B(0), B(1), 1); return;
        case K::AShr: r = shift(B(0), B(1), 2); return;
        case K::Eq: r = {eq(B(0), B(1))}; return;
        case K::Ult: r = {ult(B(0), B(1))}; return;
        case K::Ule: r = {~ult(B(1), B(0))}; return;
        case K::Slt:
        case K::Sle:
        {
            V a = B(0), b = B(1);
            a.back() = ~a.back();
            b.back() = ~b.back();
            r        = {e->k == K::Slt ? ult(a, b) : ~ult(b, a)};
            return;
        }
        case K::Concat:
            r = B(1);
            r.insert(r.end(), B(0).begin(), B(0).end());
            return;
        case K::Extract: r.assign(B(0).begin() + (long) e->aux, B(0).begin() + (long) e->aux + w); return;
        case K::ZExt:
            r = B(0);
            r.resize(w, ~T);
            return;
        case K::SExt:
        {
            r     = B(0);
            Lit t = r.back();
            r.resize(w, t);
            return;
        }
        case K::Ite: r = ite(B(0)[0], B(1), B(2)); return;
        default: abort();
    }
}
const std::vector<Lit>& BitBlaster::blast(Expr* e)
{
    if (bits.size() < X.all.size())
    {
        bits.resize(X.all.size() * 2 + 64);
        own.resize(X.all.size() * 2 + 64);
    }
    if (!bits[e->id].empty())
        return bits[e->id];
    std::vector<Expr*> st{e};
    while (!st.empty())
    {
        Expr* t = st.back();
        if (!bits[t->id].empty())
        {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < t->nc; ++i)
            if (bits[t->c[i]->id].empty())
            {
                st.push_back(t->c[i]);
                ready = false;
            }
        if (!ready)
            continue;
        V r;
        cur = &own[t->id];
        node(t, r);
        cur         = nullptr;
        bits[t->id] = std::move(r);
        st.pop_back();
    }
    return bits[e->id];
}

int BitBlaster::solve(const std::vector<Expr*>& cs, Expr* extra, int64_t conflicts)
{
    static const size_t LIM = getenv("BBL") ? atoi(getenv("BBL")) : 600, MUL = getenv("BBM") ? atoi(getenv("BBM")) : 2;
    if ((size_t) s->nVars() > LIM + MUL * lastCone)
        reset();
    vec<Lit>           as;
    std::vector<Expr*> st;
    auto               push = [&](Expr* c)
    {
        Lit l = blast(c)[0];
        as.push(l);
        st.push_back(c);
    };
    for (auto* c : cs)
        push(c);
    if (extra)
        push(extra);
    if (!s->okay())
    {
        reset();
        return -1;
    }
    if (mark.size() < X.all.size())
        mark.resize(X.all.size() * 2 + 64, 0);
    ++epoch;
    std::vector<Var> dv;
    while (!st.empty())
    {
        Expr* t = st.back();
        st.pop_back();
        if (mark[t->id] == epoch)
            continue;
        mark[t->id] = epoch;
        for (Var v : own[t->id])
            dv.push_back(v);
        for (int i = 0; i < t->nc; ++i)
            st.push_back(t->c[i]);
    }
    lastCone = dv.size();
    for (Var v : dv)
        s->setDecisionVar(v, true);
    s->setConfBudget(conflicts);
    lbool r = s->solveLimited(as);
    for (Var v : dv)
        s->setDecisionVar(v, false);
    if (r == l_True)
        return 1;
    if (r == l_False)
        return 0;
    return -1;
}
u128 BitBlaster::value(Expr* sym)
{
    u128 v = 0;
    if (sym->id >= bits.size() || bits[sym->id].empty())
        return 0;
    auto& b = bits[sym->id];
    for (size_t i = 0; i < b.size(); ++i)
    {
        lbool x = s->model[var(b[i])];
        bool  t = x == l_True;
        if (sign(b[i]))
            t = !t && x != l_Undef;
        if (t)
            v |= (u128) 1 << i;
    }
    return v;
}
