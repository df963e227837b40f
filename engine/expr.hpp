// Hash-consed bit-vector expression DAG with aggressive local simplification.
// Floating-point values are carried as IEEE bit patterns; FP operations are
// dedicated node kinds that the solver layer maps to the SMT FP theory.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

using u64  = uint64_t;
using u128 = unsigned __int128;
using i128 = __int128;

enum class K : uint8_t
{
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, ZExt, SExt, Ite,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRint,  // FRint: aux = mode
    FMin, FMax, FFma,
    FOeq, FOlt, FOle, FUno,
    FToSI, FToUI, SIToF, UIToF, FToF
};

struct Expr
{
    K        k;
    uint16_t w;      // result width in bits (1..128)
    uint8_t  nc;     // number of children
    u64      aux;    // extract offset, sym index, mode
    u128     cv;     // constant value
    Expr*    c[3];
    uint32_t id;
    uint8_t  hasFP;  // contains an FP operation
    uint32_t depth;
};

inline u128 maskw(unsigned w)
{
    return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1);
}
inline i128 sextv(u128 v, unsigned w)
{
    if (w >= 128)
        return (i128) v;
    v &= maskw(w);
    if ((v >> (w - 1)) & 1)
        return (i128) (v | ~maskw(w));
    return (i128) v;
}

struct SymInfo
{
    std::string name;
    unsigned    w;
};

struct ExprCtx
{
    std::vector<Expr*>   all;
    std::vector<SymInfo> syms;
    std::vector<Expr*>   symE;
    std::vector<Expr*>   table;  // open addressing
    size_t               count = 0;

    ExprCtx() : table(1 << 20, nullptr) {}

    static u64 hashOf(K k, unsigned w, u64 aux, u128 cv, Expr* a, Expr* b, Expr* d)
    {
        auto mix = [](u64 h, u64 v)
        {
            h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdULL;
            return h ^ (h >> 29);
        };
        u64 h = (u64) k * 1000003 + w;
        h     = mix(h, aux);
        h     = mix(h, (u64) cv);
        h     = mix(h, (u64) (cv >> 64));
        h     = mix(h, a ? a->id + 1 : 0);
        h     = mix(h, b ? b->id + 1 : 0);
        h     = mix(h, d ? d->id + 1 : 0);
        return h;
    }
    void grow()
    {
        std::vector<Expr*> nt(table.size() * 2, nullptr);
        for (auto* e : all)
        {
            u64 h = hashOf(e->k, e->w, e->aux, e->cv, e->c[0], e->c[1], e->c[2]) & (nt.size() - 1);
            while (nt[h])
                h = (h + 1) & (nt.size() - 1);
            nt[h] = e;
        }
        table.swap(nt);
    }
    Expr* mk(K k, unsigned w, u64 aux, u128 cv, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr)
    {
        if (count * 2 > table.size())
            grow();
        u64 h = hashOf(k, w, aux, cv, a, b, d) & (table.size() - 1);
        while (auto* e = table[h])
        {
            if (e->k == k && e->w == w && e->aux == aux && e->cv == cv && e->c[0] == a && e->c[1] == b && e->c[2] == d)
                return e;
            h = (h + 1) & (table.size() - 1);
        }
        auto* e  = new Expr;
        e->k     = k;
        e->w     = (uint16_t) w;
        e->nc    = d ? 3 : b ? 2 : a ? 1 : 0;
        e->aux   = aux;
        e->cv    = cv;
        e->c[0]  = a;
        e->c[1]  = b;
        e->c[2]  = d;
        e->id    = (uint32_t) all.size();
        e->hasFP = (k >= K::FAdd) || (a && a->hasFP) || (b && b->hasFP) || (d && d->hasFP);
        uint32_t dp = 0;
        for (int i = 0; i < e->nc; ++i)
            dp = std::max(dp, e->c[i]->depth);
        e->depth = dp + 1;
        all.push_back(e);
        table[h] = e;
        ++count;
        return e;
    }
    Expr* C(u128 v, unsigned w)
    {
        return mk(K::Const, w, 0, v & maskw(w));
    }
    Expr* sym(const std::string& name, unsigned w)
    {
        syms.push_back({name, w});
        symE.push_back(mk(K::Sym, w, syms.size() - 1, 0));
        return symE.back();
    }

    static bool isC(const Expr* e)
    {
        return e->k == K::Const;
    }

    // ---- concrete semantics, shared by folding and by model evaluation
    static u128 fold(K k, unsigned w, u64 aux, const u128* v, const unsigned* cw);

    Expr* bin(K k, Expr* a, Expr* b);
    Expr* cmp(K k, Expr* a, Expr* b);
    Expr* extract(Expr* a, unsigned lo, unsigned w);
    Expr* concat(Expr* hi, Expr* lo);
    Expr* zext(Expr* a, unsigned w);
    Expr* sext(Expr* a, unsigned w);
    Expr* ite(Expr* c, Expr* a, Expr* b);
    Expr* fop(K k, unsigned w, u64 aux, Expr* a, Expr* b = nullptr, Expr* d = nullptr);
    Expr* monotoneCmp(K k, Expr* a, Expr* b);
    Expr* fcmpC(Expr* x, double t, bool le);
    Expr* dyadicOp(K k, unsigned w, u64 aux, Expr* a, Expr* b);
    bool  dyadic(Expr* e, Expr*& i, int& sh, i128& lo, i128& hi);
    Expr* mkDyadic(Expr* i, int sh);
    Expr* not1(Expr* a)
    {
        return bin(K::Xor, a, C(1, 1));
    }
    Expr* and1(Expr* a, Expr* b)
    {
        return bin(K::And, a, b);
    }
    Expr* or1(Expr* a, Expr* b)
    {
        return bin(K::Or, a, b);
    }
    u128  knownZero(Expr* e, int depth = 0);  // mask of bits known to be zero
    std::unordered_map<uint32_t, u128> kzCache;
};

unsigned fpWidthOk(unsigned w);
