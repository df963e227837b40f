// Incremental bit-blaster on top of MiniSat (assumption-based): decides branch-feasibility queries quickly.
#pragma once
#include "expr.hpp"

#include <minisat/core/Solver.h>
#include <unordered_map>
#include <vector>

struct BitBlaster
{
    using Lit = Minisat::Lit;
    ExprCtx&                                   X;
    Minisat::Solver*                           s = nullptr;
    Lit                                        T;
    std::vector<std::vector<Lit>>              bits;   // by expr id
    std::vector<std::vector<Minisat::Var>>     own;    // variables introduced or reused by the node
    std::unordered_map<uint64_t, Lit>          andH, xorH;
    std::unordered_map<std::string, Lit>       iteH;
    std::vector<Minisat::Var>*                 cur = nullptr;
    std::vector<uint32_t>                      mark;
    uint32_t                                   epoch = 0;
    u64                                        resets = 0;
    size_t                                     lastCone = 0;

    explicit BitBlaster(ExprCtx& x) : X(x)
    {
        reset();
    }
    void reset();
    // 1 sat, 0 unsat, -1 unknown (budget)
    int solve(const std::vector<Expr*>& cs, Expr* extra, int64_t conflicts);
    // value of a symbol in the last model
    u128 value(Expr* sym);

  private:
    Lit  fresh();
    Lit  gAnd(Lit a, Lit b);
    Lit  gOr(Lit a, Lit b)
    {
        return ~gAnd(~a, ~b);
    }
    Lit  gXor(Lit a, Lit b);
    Lit  gIte(Lit c, Lit a, Lit b);
    Lit  gMaj(Lit a, Lit b, Lit c);
    void use(Lit l)
    {
        if (cur)
            cur->push_back(Minisat::var(l));
    }
    const std::vector<Lit>& blast(Expr* e);
    void                    node(Expr* e, std::vector<Lit>& r);
    using V = std::vector<Lit>;
    V    add(const V& a, const V& b, Lit cin);
    V    neg(const V& a);
    V    inv(const V& a);
    V    mul(const V& a, const V& b);
    void udivrem(const V& a, const V& b, V& q, V& r);
    Lit  ult(const V& a, const V& b);
    Lit  eq(const V& a, const V& b);
    V    ite(Lit c, const V& a, const V& b);
    V    shift(const V& a, const V& b, int mode);
};
