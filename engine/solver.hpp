// Solver layer: path-constraint slicing, model/counterexample caching, incremental Z3, one-shot fallback tactics.
#pragma once
#include "expr.hpp"

#include "bitblast.hpp"

#include <memory>
#include <z3.h>

enum class Res
{
    Sat,
    Unsat,
    Unknown
};

struct Model
{
    std::vector<u128> v;  // by symbol index; symbols beyond the end are 0
    u64               id = 0;
    static u64        counter;
    Model() : id(++counter) {}
    u128 get(size_t i) const
    {
        return i < v.size() ? v[i] : 0;
    }
};
using ModelP = std::shared_ptr<const Model>;

struct Solver
{
    explicit Solver(ExprCtx& c);
    ExprCtx&  X;
    Z3_context z;
    Z3_solver  inc;
    std::vector<Expr*> asserted;  // constraints currently pushed in `inc`

    // statistics
    u64    nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nCacheHit = 0, nModelHit = 0, nFallback = 0;
    double solverTime = 0, maxQuery = 0;
    unsigned incTimeoutMs = 4000, hardTimeoutMs = 240000;

    // `obligation` queries (property checks) are always decided by Z3; feasibility queries by the bit-blaster with a
    // sample cross-checked by Z3.
    Res check(const std::vector<Expr*>& pc, Expr* extra, const ModelP& base, ModelP& out, bool obligation = false);
    BitBlaster bb;
    u64        nSat1 = 0, nCross = 0, nObl = 0, nOblZ3 = 0;
    double     oblZ3Time = 0;
    bool       disagreement = false;
    u128 eval(Expr* e, const ModelP& m);
    const std::vector<u64>& symset(Expr* e);

  private:
    Z3_ast tr(Expr* e);
    Z3_ast trNode(Expr* e);
    Z3_ast fp(Expr* e);  // as FP sort
    Z3_sort fpSort(unsigned w);
    Z3_ast rm(int m);
    std::vector<Z3_ast> bvCache, fpCache;
    std::unordered_map<uint32_t, std::vector<u64>> symCache;
    std::vector<Z3_ast> symAst;
    // evaluation memo
    std::vector<u128> memoV;
    std::vector<u64>  memoE;
    u64               epoch = 0;
    u64               epochModel = 0;
    struct CacheEnt
    {
        Res    r;
        ModelP m;
        bool   z3 = false;
    };
    std::unordered_map<std::string, CacheEnt> qcache;
    std::vector<ModelP> recent;
    void modelFrom(Z3_model zm, const std::vector<u64>& syms, const ModelP& base, ModelP& out);
};
