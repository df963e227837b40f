#include "solver.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>

u64 Model::counter = 0;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static void zerr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    std::exit(90);
}

Solver::Solver(ExprCtx& c) : X(c), bb(c)
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(z, zerr);
    inc = Z3_mk_simple_solver(z);
    Z3_solver_inc_ref(z, inc);
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), incTimeoutMs);
    Z3_solver_set_params(z, inc, p);
    Z3_params_dec_ref(z, p);
}

// ---------------------------------------------------------------- evaluation
u128 Solver::eval(Expr* e, const ModelP& m)
{
    if (e->k == K::Const)
        return e->cv;
    if (epochModel != m->id)
    {
        epochModel = m->id;
        ++epoch;
    }
    if (memoV.size() < X.all.size())
    {
        memoV.resize(X.all.size() * 2 + 16);
        memoE.resize(X.all.size() * 2 + 16, 0);
    }
    if (memoE[e->id] == epoch)
        return memoV[e->id];
    static std::vector<Expr*> st;
    size_t                    base = st.size();
    st.push_back(e);
    while (st.size() > base)
    {
        Expr* t = st.back();
        if (memoE[t->id] == epoch)
        {
            st.pop_back();
            continue;
        }
        if (t->k == K::Const)
        {
            memoV[t->id] = t->cv;
            memoE[t->id] = epoch;
            st.pop_back();
            continue;
        }
        if (t->k == K::Sym)
        {
            memoV[t->id] = m->get(t->aux) & maskw(t->w);
            memoE[t->id] = epoch;
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < t->nc; ++i)
            if (memoE[t->c[i]->id] != epoch)
            {
                st.push_back(t->c[i]);
                ready = false;
            }
        if (!ready)
            continue;
        u128     v[3];
        unsigned cw[3] = {0, 0, 0};
        for (int i = 0; i < t->nc; ++i)
        {
            v[i]  = memoV[t->c[i]->id];
            cw[i] = t->c[i]->w;
        }
        memoV[t->id] = ExprCtx::fold(t->k, t->w, t->aux, v, cw) & maskw(t->w);
        memoE[t->id] = epoch;
        st.pop_back();
    }
    return memoV[e->id];
}

const std::vector<u64>& Solver::symset(Expr* e)
{
    auto it = symCache.find(e->id);
    if (it != symCache.end())
        return it->second;
    // iterative collection with a visited set local to this expression
    std::vector<u64>                   res;
    std::vector<Expr*>                 st{e};
    std::unordered_map<uint32_t, char> seen;
    auto                               merge = [&](const std::vector<u64>& o)
    {
        if (res.size() < o.size())
            res.resize(o.size(), 0);
        for (size_t i = 0; i < o.size(); ++i)
            res[i] |= o[i];
    };
    while (!st.empty())
    {
        Expr* t = st.back();
        st.pop_back();
        if (t->k == K::Const)
            continue;
        if (t->k == K::Sym)
        {
            if (res.size() <= t->aux / 64)
                res.resize(t->aux / 64 + 1, 0);
            res[t->aux / 64] |= 1ull << (t->aux % 64);
            continue;
        }
        if (!seen.emplace(t->id, 1).second)
            continue;
        if (t != e)
        {
            auto i2 = symCache.find(t->id);
            if (i2 != symCache.end())
            {
                merge(i2->second);
                continue;
            }
        }
        for (int i = 0; i < t->nc; ++i)
            st.push_back(t->c[i]);
    }
    return symCache[e->id] = std::move(res);
}

// ---------------------------------------------------------------- translation
Z3_sort Solver::fpSort(unsigned w)
{
    if (w == 32)
        return Z3_mk_fpa_sort_32(z);
    if (w == 64)
        return Z3_mk_fpa_sort_64(z);
    fprintf(stderr, "unsupported symbolic FP width %u\n", w);
    std::exit(91);
}
Z3_ast Solver::rm(int m)
{
    switch (m)
    {
        case 1: return Z3_mk_fpa_rtn(z);
        case 2: return Z3_mk_fpa_rtp(z);
        case 3: return Z3_mk_fpa_rtz(z);
        case 4: return Z3_mk_fpa_rna(z);
        default: return Z3_mk_fpa_rne(z);
    }
}
static bool isFPop(K k)
{
    switch (k)
    {
        case K::FAdd:
        case K::FSub:
        case K::FMul:
        case K::FDiv:
        case K::FRem:
        case K::FSqrt:
        case K::FRint:
        case K::FMin:
        case K::FMax:
        case K::FFma:
        case K::SIToF:
        case K::UIToF:
        case K::FToF: return true;
        default: return false;
    }
}
Z3_ast Solver::fp(Expr* e)
{
    if (fpCache.size() <= e->id)
        fpCache.resize(X.all.size() * 2 + 16, nullptr);
    if (fpCache[e->id])
        return fpCache[e->id];
    Z3_ast r = nullptr;
    switch (e->k)
    {
        case K::FAdd: r = Z3_mk_fpa_add(z, rm(0), fp(e->c[0]), fp(e->c[1])); break;
        case K::FSub: r = Z3_mk_fpa_sub(z, rm(0), fp(e->c[0]), fp(e->c[1])); break;
        case K::FMul: r = Z3_mk_fpa_mul(z, rm(0), fp(e->c[0]), fp(e->c[1])); break;
        case K::FDiv: r = Z3_mk_fpa_div(z, rm(0), fp(e->c[0]), fp(e->c[1])); break;
        case K::FRem:
            fprintf(stderr, "unsupported symbolic fmod\n");
            std::exit(91);
        case K::FSqrt: r = Z3_mk_fpa_sqrt(z, rm(0), fp(e->c[0])); break;
        case K::FRint: r = Z3_mk_fpa_round_to_integral(z, rm((int) e->aux), fp(e->c[0])); break;
        case K::FMin: r = Z3_mk_fpa_min(z, fp(e->c[0]), fp(e->c[1])); break;
        case K::FMax: r = Z3_mk_fpa_max(z, fp(e->c[0]), fp(e->c[1])); break;
        case K::FFma: r = Z3_mk_fpa_fma(z, rm(0), fp(e->c[0]), fp(e->c[1]), fp(e->c[2])); break;
        case K::SIToF: r = Z3_mk_fpa_to_fp_signed(z, rm(0), tr(e->c[0]), fpSort(e->w)); break;
        case K::UIToF: r = Z3_mk_fpa_to_fp_unsigned(z, rm(0), tr(e->c[0]), fpSort(e->w)); break;
        case K::FToF: r = Z3_mk_fpa_to_fp_float(z, rm(0), fp(e->c[0]), fpSort(e->w)); break;
        case K::Ite: r = Z3_mk_ite(z, tr(e->c[0]), fp(e->c[1]), fp(e->c[2])); break;
        case K::Xor:
            // negation
            if (e->c[1]->k == K::Const && e->c[1]->cv == ((u128) 1 << (e->w - 1)))
            {
                r = Z3_mk_fpa_neg(z, fp(e->c[0]));
                break;
            }
            [[fallthrough]];
        default:
            r = Z3_mk_fpa_to_fp_bv(z, tr(e), fpSort(e->w));
            break;
    }
    Z3_inc_ref(z, r);
    fpCache[e->id] = r;
    return r;
}

Z3_ast Solver::tr(Expr* e)
{
    if (bvCache.size() <= X.all.size())
        bvCache.resize(X.all.size() * 2 + 16, nullptr);
    if (bvCache[e->id])
        return bvCache[e->id];
    std::vector<Expr*> st{e};
    while (!st.empty())
    {
        Expr* t = st.back();
        if (bvCache[t->id])
        {
            st.pop_back();
            continue;
        }
        bool ready = true;
        if (!isFPop(t->k))
            for (int i = 0; i < t->nc; ++i)
                if (!bvCache[t->c[i]->id])
                {
                    st.push_back(t->c[i]);
                    ready = false;
                }
        if (!ready)
            continue;
        Z3_ast r = trNode(t);
        Z3_inc_ref(z, r);
        bvCache[t->id] = r;
        st.pop_back();
    }
    return bvCache[e->id];
}

Z3_ast Solver::trNode(Expr* e)
{
    auto B = [&](int i) { return bvCache[e->c[i]->id]; };
    auto bvOf = [&](int i) -> Z3_ast  // child as bit-vector even when 1 bit wide
    {
        if (e->c[i]->w != 1)
            return B(i);
        Z3_sort s1 = Z3_mk_bv_sort(z, 1);
        return Z3_mk_ite(z, B(i), Z3_mk_unsigned_int64(z, 1, s1), Z3_mk_unsigned_int64(z, 0, s1));
    };
    auto toBool = [&](Z3_ast bv) { return Z3_mk_eq(z, bv, Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1))); };
    const unsigned w = e->w;
    switch (e->k)
    {
        case K::Const:
        {
            if (w == 1)
                return e->cv ? Z3_mk_true(z) : Z3_mk_false(z);
            if (w <= 64)
                return Z3_mk_unsigned_int64(z, (u64) e->cv, Z3_mk_bv_sort(z, w));
            Z3_ast hi = Z3_mk_unsigned_int64(z, (u64) (e->cv >> 64), Z3_mk_bv_sort(z, w - 64));
            Z3_ast lo = Z3_mk_unsigned_int64(z, (u64) e->cv, Z3_mk_bv_sort(z, 64));
            return Z3_mk_concat(z, hi, lo);
        }
        case K::Sym:
        {
            std::string n = "s" + std::to_string(e->aux);
            return Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), w == 1 ? Z3_mk_bool_sort(z) : Z3_mk_bv_sort(z, w));
        }
        case K::Add: return w == 1 ? Z3_mk_xor(z, B(0), B(1)) : Z3_mk_bvadd(z, B(0), B(1));
        case K::Sub: return w == 1 ? Z3_mk_xor(z, B(0), B(1)) : Z3_mk_bvsub(z, B(0), B(1));
        case K::Mul:
            if (w == 1)
            {
                Z3_ast a[2] = {B(0), B(1)};
                return Z3_mk_and(z, 2, a);
            }
            return Z3_mk_bvmul(z, B(0), B(1));
        case K::UDiv: return Z3_mk_bvudiv(z, B(0), B(1));
        case K::SDiv: return Z3_mk_bvsdiv(z, B(0), B(1));
        case K::URem: return Z3_mk_bvurem(z, B(0), B(1));
        case K::SRem: return Z3_mk_bvsrem(z, B(0), B(1));
        case K::And:
            if (w == 1)
            {
                Z3_ast a[2] = {B(0), B(1)};
                return Z3_mk_and(z, 2, a);
            }
            return Z3_mk_bvand(z, B(0), B(1));
        case K::Or:
            if (w == 1)
            {
                Z3_ast a[2] = {B(0), B(1)};
                return Z3_mk_or(z, 2, a);
            }
            return Z3_mk_bvor(z, B(0), B(1));
        case K::Xor:
            if (w == 1)
            {
                if (e->c[1]->k == K::Const && e->c[1]->cv == 1)
                    return Z3_mk_not(z, B(0));
                return Z3_mk_xor(z, B(0), B(1));
            }
            return Z3_mk_bvxor(z, B(0), B(1));
        case K::Shl: return Z3_mk_bvshl(z, B(0), B(1));
        case K::LShr: return Z3_mk_bvlshr(z, B(0), B(1));
        case K::AShr: return Z3_mk_bvashr(z, B(0), B(1));
        case K::Eq: return Z3_mk_eq(z, B(0), B(1));
        case K::Ult:
            if (e->c[0]->w == 1)
            {
                Z3_ast a[2] = {Z3_mk_not(z, B(0)), B(1)};
                return Z3_mk_and(z, 2, a);
            }
            return Z3_mk_bvult(z, B(0), B(1));
        case K::Ule: return e->c[0]->w == 1 ? Z3_mk_implies(z, B(0), B(1)) : Z3_mk_bvule(z, B(0), B(1));
        case K::Slt: return e->c[0]->w == 1 ? Z3_mk_bvslt(z, bvOf(0), bvOf(1)) : Z3_mk_bvslt(z, B(0), B(1));
        case K::Sle: return e->c[0]->w == 1 ? Z3_mk_bvsle(z, bvOf(0), bvOf(1)) : Z3_mk_bvsle(z, B(0), B(1));
        case K::Concat: return Z3_mk_concat(z, bvOf(0), bvOf(1));
        case K::Extract:
        {
            Z3_ast r = Z3_mk_extract(z, (unsigned) e->aux + w - 1, (unsigned) e->aux, bvOf(0));
            return w == 1 ? toBool(r) : r;
        }
        case K::ZExt:
            if (e->c[0]->w == 1)
            {
                Z3_sort s = Z3_mk_bv_sort(z, w);
                return Z3_mk_ite(z, B(0), Z3_mk_unsigned_int64(z, 1, s), Z3_mk_unsigned_int64(z, 0, s));
            }
            return Z3_mk_zero_ext(z, w - e->c[0]->w, B(0));
        case K::SExt: return Z3_mk_sign_ext(z, w - e->c[0]->w, bvOf(0));
        case K::Ite: return Z3_mk_ite(z, B(0), B(1), B(2));
        case K::FOeq: return Z3_mk_fpa_eq(z, fp(e->c[0]), fp(e->c[1]));
        case K::FOlt: return Z3_mk_fpa_lt(z, fp(e->c[0]), fp(e->c[1]));
        case K::FOle: return Z3_mk_fpa_leq(z, fp(e->c[0]), fp(e->c[1]));
        case K::FUno:
        {
            Z3_ast a[2] = {Z3_mk_fpa_is_nan(z, fp(e->c[0])), Z3_mk_fpa_is_nan(z, fp(e->c[1]))};
            return Z3_mk_or(z, 2, a);
        }
        case K::FToSI:
        {
            // x86 semantics for out-of-range inputs: 0x80..0 (matches the native build)
            Z3_ast conv = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), fp(e->c[0]), w);
            return conv;
        }
        case K::FToUI: return Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), fp(e->c[0]), w);
        default: return Z3_mk_fpa_to_ieee_bv(z, fp(e));
    }
}

// ---------------------------------------------------------------- queries
void Solver::modelFrom(Z3_model zm, const std::vector<u64>& syms, const ModelP& base, ModelP& out)
{
    auto m = std::make_shared<Model>();
    if (base)
        m->v = base->v;
    if (m->v.size() < X.syms.size())
        m->v.resize(X.syms.size(), 0);
    for (size_t i = 0; i < X.syms.size(); ++i)
    {
        if (i / 64 >= syms.size() || !((syms[i / 64] >> (i % 64)) & 1))
            continue;
        unsigned w = X.syms[i].w;
        std::string n = "s" + std::to_string(i);
        Z3_ast      c = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), w == 1 ? Z3_mk_bool_sort(z) : Z3_mk_bv_sort(z, w));
        Z3_inc_ref(z, c);
        Z3_ast r = nullptr;
        if (!Z3_model_eval(z, zm, c, true, &r))
        {
            Z3_dec_ref(z, c);
            continue;
        }
        Z3_inc_ref(z, r);
        u128 val = 0;
        if (w == 1)
            val = Z3_get_bool_value(z, r) == Z3_L_TRUE;
        else
        {
            const char* s = Z3_get_numeral_string(z, r);
            for (; *s; ++s)
                val = val * 10 + (unsigned) (*s - '0');
        }
        m->v[i] = val;
        Z3_dec_ref(z, r);
        Z3_dec_ref(z, c);
    }
    out = m;
}

Res Solver::check(const std::vector<Expr*>& pc, Expr* extra, const ModelP& base, ModelP& out, bool obligation)
{
    if (extra && extra->k == K::Const)
    {
        if (!extra->cv)
            return Res::Unsat;
    }
    // slice
    std::vector<u64>  syms;
    std::vector<char> in(pc.size(), 0);
    std::vector<Expr*> slice;
    if (extra)
    {
        syms         = symset(extra);
        bool changed = true;
        while (changed)
        {
            changed = false;
            for (size_t i = 0; i < pc.size(); ++i)
            {
                if (in[i])
                    continue;
                auto& s   = symset(pc[i]);
                bool  hit = false;
                for (size_t j = 0; j < s.size() && j < syms.size(); ++j)
                    if (s[j] & syms[j])
                    {
                        hit = true;
                        break;
                    }
                if (!hit)
                    continue;
                in[i]   = 1;
                bool ex = s.size() > syms.size();
                if (ex)
                    syms.resize(s.size(), 0);
                for (size_t j = 0; j < s.size(); ++j)
                {
                    if (s[j] & ~syms[j])
                        ex = true;
                    syms[j] |= s[j];
                }
                changed |= ex;
            }
        }
        for (size_t i = 0; i < pc.size(); ++i)
            if (in[i])
                slice.push_back(pc[i]);
    }
    else
    {
        slice = pc;
        for (auto* e : pc)
        {
            auto& s = symset(e);
            if (s.size() > syms.size())
                syms.resize(s.size(), 0);
            for (size_t j = 0; j < s.size(); ++j)
                syms[j] |= s[j];
        }
    }
    std::vector<uint32_t> key;
    for (auto* e : slice)
        key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(extra ? extra->id : 0xffffffffu);
    std::string ks((const char*) key.data(), key.size() * 4);
    auto        patch = [&](const ModelP& m)
    {
        // combine: slice symbols from m, the others from base
        auto r = std::make_shared<Model>();
        if (base)
            r->v = base->v;
        if (r->v.size() < X.syms.size())
            r->v.resize(X.syms.size(), 0);
        for (size_t i = 0; i < X.syms.size(); ++i)
            if (i / 64 < syms.size() && ((syms[i / 64] >> (i % 64)) & 1))
                r->v[i] = m->get(i);
        return r;
    };
    auto it = qcache.find(ks);
    if (it != qcache.end())
    {
        ++nCacheHit;
        if (it->second.r == Res::Sat)
            out = patch(it->second.m);
        return it->second.r;
    }
    for (size_t r = recent.size(); r-- > 0;)
    {
        auto& m  = recent[r];
        bool  ok = !extra || eval(extra, m);
        for (size_t i = 0; ok && i < slice.size(); ++i)
            ok = eval(slice[i], m);
        if (ok)
        {
            ++nModelHit;
            qcache[ks] = {Res::Sat, m, false};
            out        = patch(m);
            return Res::Sat;
        }
    }
    ++nQueries;
    bool anyFP = extra && extra->hasFP;
    for (auto* e : slice)
        anyFP |= e->hasFP;
    double t0 = now();
    Res    res = Res::Unknown;
    bool   byZ3 = false, cross = false;
    Res    bbRes = Res::Unknown;
    if (obligation)
        ++nObl;
    if (!anyFP)
    {
        ++nSat1;
        int r = bb.solve(slice, extra, 30000);
        if (r == 1)
        {
            auto m = std::make_shared<Model>();
            if (base)
                m->v = base->v;
            m->v.resize(std::max(m->v.size(), X.syms.size()), 0);
            for (size_t i = 0; i < X.syms.size(); ++i)
                if (i / 64 < syms.size() && ((syms[i / 64] >> (i % 64)) & 1))
                    m->v[i] = bb.value(X.symE[i]);
            out = m;
            res = bbRes = Res::Sat;
        }
        else if (r == 0)
        {
            bbRes = Res::Unsat;
            // Z3 confirms the bit-blaster's verdict on every obligation while that stays cheap, then on one in eight, and on a
            // sample of the branch queries
            if (obligation)
                cross = oblZ3Time < 4.0 || (nObl % 8 == 0 && oblZ3Time < 40.0);
            else
                cross = nSat1 % 101 == 0;
            if (cross)
                ++(obligation ? nOblZ3 : nCross);
            else
                res = Res::Unsat;
        }
    }
    double tz = now();
    if (res == Res::Unknown && !anyFP)
    {
        byZ3     = true;
        size_t n = 0;
        while (n < asserted.size() && n < pc.size() && asserted[n] == pc[n])
            ++n;
        // FP-carrying constraints are never asserted incrementally: restrict to the slice in that case
        bool pcFP = false;
        for (auto* e : pc)
            pcFP |= e->hasFP;
        if (!pcFP)
        {
            if (n < asserted.size())
            {
                Z3_solver_pop(z, inc, (unsigned) (asserted.size() - n));
                asserted.resize(n);
            }
            for (; n < pc.size(); ++n)
            {
                Z3_solver_push(z, inc);
                Z3_solver_assert(z, inc, tr(pc[n]));
                asserted.push_back(pc[n]);
            }
            Z3_solver_push(z, inc);
            if (extra)
                Z3_solver_assert(z, inc, tr(extra));
            Z3_lbool r = Z3_solver_check(z, inc);
            if (r == Z3_L_TRUE)
            {
                Z3_model zm = Z3_solver_get_model(z, inc);
                Z3_model_inc_ref(z, zm);
                std::vector<u64> all((X.syms.size() + 63) / 64, ~0ull);
                modelFrom(zm, all, base, out);
                Z3_model_dec_ref(z, zm);
                res = Res::Sat;
            }
            else if (r == Z3_L_FALSE)
                res = Res::Unsat;
            Z3_solver_pop(z, inc, 1);
        }
    }
    if (res == Res::Unknown && cross)
        res = Res::Unsat;  // cross-check timed out: keep the bit-blaster's verdict
    if (res == Res::Unknown)
    {
        byZ3 = true;
        ++nFallback;
        Z3_tactic t;
        if (anyFP)
            t = Z3_mk_tactic(z, "qffpbv");
        else
            t = Z3_mk_tactic(z, "qfbv");
        Z3_tactic_inc_ref(z, t);
        Z3_solver s = Z3_mk_solver_from_tactic(z, t);
        Z3_solver_inc_ref(z, s);
        Z3_params p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), hardTimeoutMs);
        Z3_solver_set_params(z, s, p);
        Z3_params_dec_ref(z, p);
        for (auto* e : slice)
            Z3_solver_assert(z, s, tr(e));
        if (extra)
            Z3_solver_assert(z, s, tr(extra));
        if (getenv("SYMX_DUMP"))
        {
            static int cnt = 0;
            std::string fn = std::string(getenv("SYMX_DUMP")) + "/q" + std::to_string(cnt++) + ".smt2";
            if (FILE* f = fopen(fn.c_str(), "w"))
            {
                fputs(Z3_solver_to_string(z, s), f);
                fputs("(check-sat)\n", f);
                fclose(f);
            }
        }
        Z3_lbool r = Z3_solver_check(z, s);
        if (r == Z3_L_TRUE)
        {
            Z3_model zm = Z3_solver_get_model(z, s);
            Z3_model_inc_ref(z, zm);
            modelFrom(zm, syms, base, out);
            Z3_model_dec_ref(z, zm);
            res = Res::Sat;
        }
        else if (r == Z3_L_FALSE)
            res = Res::Unsat;
        Z3_solver_dec_ref(z, s);
        Z3_tactic_dec_ref(z, t);
    }
    if (bbRes == Res::Unsat && res == Res::Sat)
    {
        disagreement = true;
        fprintf(stderr, "internal: Z3 and the bit-blaster disagree\n");
    }
    double dt = now() - t0;
    if (obligation && cross)
        oblZ3Time += now() - tz;
    solverTime += dt;
    maxQuery = std::max(maxQuery, dt);
    if (res == Res::Sat)
    {
        ++nSat;
        // every satisfying model is re-checked against the expression semantics of this engine
        bool ok = !extra || eval(extra, out);
        for (size_t i = 0; ok && i < slice.size(); ++i)
            ok = eval(slice[i], out);
        if (!ok)
        {
            fprintf(stderr, "internal: solver model does not satisfy the query under the engine's own evaluation\n");
            if (getenv("SYMX_DEBUG"))
            {
                if (extra && !eval(extra, out))
                    fprintf(stderr, "  extra fails: %s\n", Z3_ast_to_string(z, tr(extra)));
                for (auto* e : slice)
                    if (!eval(e, out))
                        fprintf(stderr, "  pc fails: %s\n", Z3_ast_to_string(z, tr(e)));
            }
            // FP corner cases with unspecified results (NaN payloads, out-of-range conversions)
            ++nUnknown;
            return Res::Unknown;
        }
        if (recent.size() >= 12)
            recent.erase(recent.begin());
        recent.push_back(out);
        qcache[ks] = {Res::Sat, out, false};
    }
    else if (res == Res::Unsat)
    {
        ++nUnsat;
        qcache[ks] = {Res::Unsat, nullptr, byZ3};
    }
    else
        ++nUnknown;
    return res;
}
