// symx: a small path-exploring symbolic executor for LLVM IR (opaque pointers, LLVM 18).
#include "solver.hpp"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static ExprCtx X;
static Solver* S;

struct Val
{
    Expr* e;
    u64   c;
};

// ------------------------------------------------------------------------------------------------ memory
struct SymByte
{
    Expr*   e;
    uint8_t i;
};
enum ObjKind : uint8_t
{
    OK_Heap,
    OK_Stack,
    OK_Global,
    OK_Func,
    OK_Ext
};
struct Obj
{
    uint32_t rc;
    uint32_t size;
    ObjKind  kind;
    bool     ro;
    uint8_t* data;
    SymByte* sym;
    int32_t  tag;
};
static Obj* newObj(uint32_t size, ObjKind k, int fill)
{
    auto* o = (Obj*) malloc(sizeof(Obj) + size);
    o->rc   = 1;
    o->size = size;
    o->kind = k;
    o->ro   = false;
    o->data = (uint8_t*) (o + 1);
    o->sym  = nullptr;
    o->tag  = -1;
    if (size)
        memset(o->data, fill, size);
    return o;
}
static void decObj(Obj* o)
{
    if (o && --o->rc == 0)
    {
        free(o->sym);
        free(o);
    }
}
static Obj* cloneObj(Obj* o)
{
    auto* n = (Obj*) malloc(sizeof(Obj) + o->size);
    memcpy(n, o, sizeof(Obj) + o->size);
    n->rc   = 1;
    n->data = (uint8_t*) (n + 1);
    if (o->sym)
    {
        n->sym = (SymByte*) malloc(sizeof(SymByte) * (o->size + 1));
        memcpy(n->sym, o->sym, sizeof(SymByte) * o->size);
    }
    return n;
}
struct Page
{
    uint32_t rc = 1;
    uint32_t live = 0;
    Obj*     o[64]{};
};
struct Mem
{
    std::vector<Page*> pages;
    u64                next = 1;
    Mem()              = default;
    Mem(const Mem& m) : pages(m.pages), next(m.next)
    {
        for (auto* p : pages)
            if (p)
                ++p->rc;
    }
    Mem(Mem&& m) noexcept : pages(std::move(m.pages)), next(m.next)
    {
        m.pages.clear();
    }
    Mem& operator=(const Mem&) = delete;
    ~Mem()
    {
        for (auto* p : pages)
            release(p);
    }
    static void release(Page* p)
    {
        if (p && --p->rc == 0)
        {
            for (auto* o : p->o)
                decObj(o);
            delete p;
        }
    }
    Obj* get(u64 id) const
    {
        size_t pi = id >> 6;
        if (pi >= pages.size() || !pages[pi])
            return nullptr;
        return pages[pi]->o[id & 63];
    }
    Page* wpage(size_t pi)
    {
        if (pi >= pages.size())
            pages.resize(pi + 1, nullptr);
        Page*& p = pages[pi];
        if (!p)
            p = new Page;
        else if (p->rc > 1)
        {
            auto* n = new Page(*p);
            n->rc   = 1;
            for (auto* o : n->o)
                if (o)
                    ++o->rc;
            --p->rc;
            p = n;
        }
        return p;
    }
    u64 add(Obj* o)
    {
        u64   id      = next++;
        Page* p       = wpage(id >> 6);
        p->o[id & 63] = o;
        ++p->live;
        return id;
    }
    void drop(u64 id)
    {
        Page* p = wpage(id >> 6);
        decObj(p->o[id & 63]);
        p->o[id & 63] = nullptr;
        if (--p->live == 0 && (id >> 6) < ((next - 1) >> 6))
        {
            release(p);
            pages[id >> 6] = nullptr;
        }
    }
    Obj* wget(u64 id)
    {
        Page* p = wpage(id >> 6);
        Obj*& o = p->o[id & 63];
        if (o->rc > 1)
        {
            Obj* n = cloneObj(o);
            --o->rc;
            o = n;
        }
        return o;
    }
};

// ------------------------------------------------------------------------------------------------ code
struct Leaf
{
    unsigned w;    // bits
    u64      off;  // byte offset
};
struct Edge
{
    int                              target;
    std::vector<std::pair<int, int>> copies;  // dst slot, src operand
    bool                             hazard = false;
};
enum Op : uint8_t
{
    O_Bin, O_Cmp, O_FBin, O_FCmp, O_FNeg, O_Cast, O_Select, O_Load, O_Store, O_Gep, O_Alloca, O_Call, O_Invoke,
    O_Ret, O_Br, O_CondBr, O_Switch, O_Unreachable, O_Copy, O_ExtractV, O_InsertV, O_ExtractE, O_InsertE, O_Shuffle,
    O_Resume, O_LandingPad, O_CmpXchg, O_RMW, O_Unsupported
};
struct Func;
struct State;
struct KInst;
using Handler = bool (*)(State&, KInst&, Val* a);  // returns true when the instruction completed
struct GepIdx
{
    int      op;
    unsigned w;
    u64      scale;
};
struct KInst
{
    Op                       op = O_Unsupported;
    int                      sub = 0;
    unsigned                 w = 0, w2 = 0;
    int                      dst = -1, nd = 0;
    int                      a = 0, b = 0, c = 0;
    u64                      imm = 0;
    std::vector<int>         ops;
    std::vector<unsigned>    opw;
    std::vector<Leaf>        leaves, leaves2;
    std::vector<Edge>        edges;
    std::vector<std::pair<u64, int>> cases;  // value -> edge
    std::vector<GepIdx>      gidx;
    std::vector<u64>         byval;  // per argument: size or 0
    Func*                    callee  = nullptr;
    Handler                  handler = nullptr;
    Instruction*             I       = nullptr;
};
struct Func
{
    Function*           F = nullptr;
    int                 idx = 0;
    bool                compiled = false;
    bool                executed = false;
    int                 nslots   = 0;
    std::vector<KInst>  code;
    std::vector<int>    argSlot;  // flattened arguments occupy slots [0, nargs)
    int                 nargs = 0;
    bool                vararg = false;
    std::string         name;
    Handler             handler = nullptr;
    u64                 id = 0;  // memory object id
};

static Module*                                   M;
static const DataLayout*                         DL;
static std::vector<Func*>                        funcs;
static std::map<Function*, Func*>                funcOf;
static std::vector<Val>                          pool;
static std::map<GlobalValue*, u64>               gvAddr;
static std::map<u64, std::string>                gvNameById;
static std::map<std::string, Handler>            handlers;
static std::map<u64, int>                        typeIdOf;  // typeinfo address -> selector

// ------------------------------------------------------------------------------------------------ state
struct Frame
{
    Func*            f;
    int              pc;
    uint32_t         base;
    int              retDst, retNd;
    std::vector<u64> allocas;
};
struct Input
{
    std::string name, kind;
    Expr*       e;   // null when concrete
    u64         c;
    unsigned    w;
};
struct ExcInfo
{
    u64 obj;  // address of exception object
    u64 type;
    u64 dtor;
};
struct Acc
{
    int              thread;
    bool             write;
    std::vector<u64> locks;
};
struct State
{
    std::vector<Frame> fr;
    std::vector<Val>   regs;
    Mem                mem;
    std::vector<Expr*> pc;
    ModelP             model;
    std::vector<Input> inputs;
    std::vector<Val>   obs;
    u64                steps = 0;
    std::vector<ExcInfo> thrown;            // allocated exceptions (address -> type)
    std::vector<u64>   caught;              // stack of caught exception addresses
    int                uncaught = 0;
    ExcInfo            cur{};               // exception in flight
    int                sel = 0;
    u64                selPtr = 0;
    bool               dead = false;
    std::vector<u64>   atexits;
    // data-race detection between modelled threads (fork-join executions run one thread after the other)
    int                                   thread = 0, initDepth = 0;
    u64                                   active = 0;  // threads started and not joined yet
    std::vector<u64>                      locks;
    std::map<u64, std::vector<struct Acc>> accesses;   // byte address -> accesses by threads other than the initial one
};

struct Violation
{
    std::string kind, label, where;
    std::vector<std::pair<std::string, std::pair<std::string, std::string>>> inputs;
    std::string stack;
};

static std::vector<State*>     work;
static std::vector<Violation>  violations;
static std::set<std::string>   violKeys;
static std::map<std::string, u64> labelCount, reachCount;
static std::map<std::string, u64> oblig;
static std::vector<std::string> engineErrors;
static u64                     nPaths = 0, nInstr = 0, nForks = 0, nBranches = 0, nSymBranches = 0, nChecks = 0, nInfeasible = 0,
           nSymChecks = 0, nUnknownPaths = 0;
static u64                     maxSteps = 50000000, maxPaths = 1000000000ull, maxViol = 4;
static double                  maxTime = 800, t0;
static std::vector<std::string> samples;
static u64                     maxSamples = 40;
static int                     partNo = 0;
static bool                    inCtors = false;
static u64                     seed = 1;
static bool                    timedOut = false;
static std::set<std::string>   unsup;
static std::set<std::string>   stubbed;

struct PathEnd
{
};  // thrown to abandon the current path

static inline bool conc(const Val& v)
{
    return v.e == nullptr;
}
static inline u64 mask64(unsigned w)
{
    return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static inline Expr* E(const Val& v, unsigned w)
{
    return v.e ? v.e : X.C(v.c, w);
}
static inline Val mkv(Expr* e)
{
    if (e->k == K::Const && e->w <= 64)
        return {nullptr, (u64) e->cv};
    return {e, 0};
}
static inline Val cv(u64 c)
{
    return {nullptr, c};
}

static std::string whereOf(State& st)
{
    std::string out;
    int         n = 0;
    for (size_t i = st.fr.size(); i-- > 0 && n < 12;)
    {
        Frame& f = st.fr[i];
        if (f.pc < 0 || f.pc >= (int) f.f->code.size())
            continue;
        KInst& k = f.f->code[f.pc];
        if (!k.I)
            continue;
        const DebugLoc& dl = k.I->getDebugLoc();
        if (dl)
        {
            const DILocation* L = dl.get();
            while (L && n < 12)
            {
                if (!out.empty())
                    out += " <- ";
                std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
                out += fn + "@" + L->getFilename().str() + ":" + std::to_string(L->getLine());
                ++n;
                L = L->getInlinedAt();
            }
        }
        else
        {
            if (!out.empty())
                out += " <- ";
            out += demangle(f.f->name);
            ++n;
        }
    }
    return out;
}

static std::string hex128(u128 v)
{
    char b[40];
    if (v >> 64)
        snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v);
    else
        snprintf(b, sizeof b, "0x%llx", (unsigned long long) v);
    return b;
}

static std::vector<std::pair<std::string, std::pair<std::string, std::string>>> inputsUnder(State& st, const ModelP& m)
{
    std::vector<std::pair<std::string, std::pair<std::string, std::string>>> r;
    for (auto& in : st.inputs)
    {
        u128 v = in.e ? S->eval(in.e, m) : (u128) in.c;
        r.push_back({in.name, {in.kind, hex128(v)}});
    }
    return r;
}

static void report(State& st, const std::string& kind, const std::string& label, const ModelP& m)
{
    std::string key = kind + "|" + label;
    if (inCtors)
    {
        engineErrors.push_back("violation during static initialisation: " + kind + " " + label + " at " + whereOf(st));
        return;
    }
    u64 have = 0;
    for (auto& v : violations)
        have += (v.kind + "|" + v.label) == key;
    if (have >= maxViol)
        return;
    Violation v;
    v.kind   = kind;
    v.label  = label;
    v.where  = whereOf(st);
    v.inputs = inputsUnder(st, m);
    violations.push_back(v);
}

[[noreturn]] static void fatal(State& st, const std::string& kind, const std::string& label)
{
    report(st, kind, label, st.model);
    throw PathEnd{};
}
[[noreturn]] static void engineError(State& st, const std::string& msg)
{
    std::string m = msg + " at " + whereOf(st);
    if (unsup.insert(msg).second)
        engineErrors.push_back(m);
    throw PathEnd{};
}

static void addConstraint(State& st, Expr* c)
{
    if (c->k == K::Const)
        return;
    // split conjunctions so that slicing works better
    if (c->k == K::And && c->w == 1)
    {
        addConstraint(st, c->c[0]);
        addConstraint(st, c->c[1]);
        return;
    }
    for (auto* e : st.pc)
        if (e == c)
            return;
    st.pc.push_back(c);
}
static bool known(State& st, Expr* c, bool& val)
{
    if (c->k == K::Const)
    {
        val = c->cv;
        return true;
    }
    Expr* n = X.not1(c);
    for (size_t i = st.pc.size(); i-- > 0;)
    {
        if (st.pc[i] == c)
        {
            val = true;
            return true;
        }
        if (st.pc[i] == n)
        {
            val = false;
            return true;
        }
    }
    return false;
}

// Decide a boolean expression on the current path; forks when both outcomes are feasible.  The forked sibling
// re-executes the current instruction, hence callers must not have had side effects before calling this.
static bool decide(State& st, Expr* c)
{
    bool v;
    if (known(st, c, v))
        return v;
    ++nSymBranches;
    v            = S->eval(c, st.model);
    Expr*  other = v ? X.not1(c) : c;
    ModelP m2;
    Res    r = S->check(st.pc, other, st.model, m2);
    if (r == Res::Unsat)
    {
        addConstraint(st, v ? c : X.not1(c));
        return v;
    }
    if (r == Res::Unknown)
    {
        if (unsup.insert("solver-unknown-branch").second)
            engineErrors.push_back("solver returned unknown on a branch at " + whereOf(st));
        addConstraint(st, v ? c : X.not1(c));
        return v;
    }
    auto* n = new State(st);
    addConstraint(*n, other);
    n->model = m2;
    work.push_back(n);
    ++nForks;
    addConstraint(st, v ? c : X.not1(c));
    return v;
}
static u64 concretize(State& st, const Val& v, unsigned w)
{
    if (conc(v))
        return v.c;
    if (v.e->k == K::Const)
        return (u64) v.e->cv;
    // already fixed by an equality?
    u128  val = S->eval(v.e, st.model);
    Expr* eq  = X.cmp(K::Eq, v.e, X.C(val, w));
    decide(st, eq);
    return (u64) val;
}

// ------------------------------------------------------------------------------------------------ memory access
static Val loadBits(State& st, Obj* o, u64 off, unsigned w)
{
    unsigned n = (w + 7) / 8;
    bool     anySym = false;
    if (o->sym)
        for (unsigned i = 0; i < n; ++i)
            if (o->sym[off + i].e)
            {
                anySym = true;
                break;
            }
    if (!anySym)
    {
        if (w <= 64)
        {
            u64 v = 0;
            memcpy(&v, o->data + off, n);
            return cv(v & mask64(w));
        }
        u128 v = 0;
        memcpy(&v, o->data + off, n);
        return {X.C(v, w), 0};
    }
    Expr* e0 = o->sym[off].e;
    if (e0 && o->sym[off].i == 0 && e0->w == n * 8)
    {
        bool same = true;
        for (unsigned i = 1; i < n; ++i)
            if (o->sym[off + i].e != e0 || o->sym[off + i].i != i)
            {
                same = false;
                break;
            }
        if (same)
            return mkv(X.extract(e0, 0, w));
    }
    Expr* r = nullptr;
    for (unsigned i = 0; i < n;)
    {
        auto& sb = o->sym[off + i];
        if (!sb.e)
        {
            u64      c = 0;
            unsigned j = i;
            while (j < n && j - i < 8 && !o->sym[off + j].e)
            {
                c |= (u64) o->data[off + j] << (8 * (j - i));
                ++j;
            }
            Expr* part = X.C(c, (j - i) * 8);
            r          = r ? X.concat(part, r) : part;
            i = j;
        }
        else
        {
            unsigned j = i + 1;
            while (j < n && o->sym[off + j].e == sb.e && o->sym[off + j].i == sb.i + (j - i))
                ++j;
            Expr* part = X.extract(sb.e, sb.i * 8u, (j - i) * 8);
            r          = r ? X.concat(part, r) : part;
            i          = j;
        }
    }
    return mkv(X.extract(r, 0, w));
}
static void storeBits(Obj* o, u64 off, unsigned w, const Val& v)
{
    unsigned n = (w + 7) / 8;
    if (conc(v) || v.e->k == K::Const)
    {
        u128 c = conc(v) ? (u128) v.c : v.e->cv;
        memcpy(o->data + off, &c, n);
        if (o->sym)
            for (unsigned i = 0; i < n; ++i)
                o->sym[off + i].e = nullptr;
        return;
    }
    if (!o->sym)
    {
        o->sym = (SymByte*) calloc(o->size + 1, sizeof(SymByte));
    }
    Expr* e = v.e;
    if (e->w != n * 8)
        e = X.zext(e, n * 8);
    if (e->k == K::Const)
    {
        storeBits(o, off, n * 8, Val{e, 0});
        return;
    }
    for (unsigned i = 0; i < n; ++i)
        o->sym[off + i] = {e, (uint8_t) i};
}

struct Loc
{
    u64   id;
    u64   off;     // concrete offset, when symOff == null
    Expr* symOff;  // 64-bit symbolic offset
    std::vector<u64> cands;
};

static void invalidAccess(State& st, u64 addr, u64 n, const char* what)
{
    u64         id  = addr >> 32, off = addr & 0xffffffffu;
    Obj*        o   = st.mem.get(id);
    std::string lab = what;
    if (id == 0)
        lab += " through null pointer";
    else if (!o)
        lab += " of freed or invalid memory";
    else
        lab += " out of bounds (object size " + std::to_string(o->size) + ", offset " + std::to_string(off) + ", access " + std::to_string(n) + ")";
    (void) off;
    fatal(st, "memory", lab);
}

static std::set<u64> tlsIds;
static void noteAccess(State& st, u64 addr, u64 n, bool write)
{
    if (!st.active || st.initDepth || tlsIds.count(addr >> 32))
        return;
    for (u64 i = 0; i < n; ++i)
    {
        auto it = st.accesses.find(addr + i);
        if (it == st.accesses.end())
        {
            if (st.thread)
                st.accesses[addr + i].push_back({st.thread, write, st.locks});
            continue;
        }
        bool known = false;
        for (auto& a : it->second)
        {
            if (a.thread == st.thread)
            {
                if (a.write == write && a.locks == st.locks)
                    known = true;
                continue;
            }
            if (!(st.active >> a.thread & 1) || !(a.write || write))
                continue;
            bool common = false;
            for (u64 l : a.locks)
                for (u64 m : st.locks)
                    common = common || l == m;
            if (!common)
                fatal(st, "race", std::string("unsynchronised ") + (write ? "write" : "read") + " of memory another thread " + (a.write ? "writes" : "reads"));
        }
        if (!known && st.thread)
            it->second.push_back({st.thread, write, st.locks});
    }
}

static Loc resolve(State& st, const Val& p, u64 n, const char* what)
{
    if (conc(p))
    {
        u64  id = p.c >> 32, off = p.c & 0xffffffffu;
        Obj* o  = st.mem.get(id);
        if (!o || off + n > o->size || o->kind == OK_Func)
        {
            if (n == 0)
                return {0, 0, nullptr, {}};
            invalidAccess(st, p.c, n, what);
        }
        return {id, off, nullptr, {}};
    }
    u64  a  = (u64) S->eval(p.e, st.model);
    u64  id = a >> 32, off = a & 0xffffffffu;
    Obj* o  = st.mem.get(id);
    if (!o || off + n > o->size || o->kind == OK_Func)
        invalidAccess(st, a, n, what);
    Expr* rel = X.bin(K::Sub, p.e, X.C(id << 32, 64));
    Expr* inb = X.cmp(K::Ule, rel, X.C(o->size - n, 64));
    decide(st, inb);  // model value is true here; forks the out-of-bounds / other-object case
    // candidate offsets
    u128 kz     = X.knownZero(rel);
    u64  stride = 1;
    while (stride < 4096 && (kz & stride))
        stride <<= 1;
    // offsets congruent to `off` modulo stride only if low bits are constant; with known zero low bits this holds
    u64  ncand = (o->size - n) / stride + 1;
    if (ncand > 1200)
    {
        u64 ca = concretize(st, p, 64);
        return {ca >> 32, ca & 0xffffffffu, nullptr, {}};
    }
    Loc l{id, 0, rel, {}};
    for (u64 k = 0; k <= o->size - n; k += stride)
        l.cands.push_back(k);
    // determine low-bit residue when stride could not be derived
    if (stride == 1 && ncand > 8)
    {
        // try stride by element: use divisibility by model differences (checked by the solver)
        for (u64 s : {8ull, 4ull, 2ull})
        {
            u64    r  = off % s;
            Expr*  lo = X.extract(rel, 0, s == 8 ? 3 : s == 4 ? 2 : 1);
            ModelP m2;
            if (S->check(st.pc, X.not1(X.cmp(K::Eq, lo, X.C(r, lo->w))), st.model, m2) == Res::Unsat)
            {
                l.cands.clear();
                for (u64 k = r; k <= o->size - n; k += s)
                    l.cands.push_back(k);
                break;
            }
        }
    }
    // prune infeasible candidates when there are only few feasible ones (cheap solver enumeration)
    if (l.cands.size() > 1)
    {
        std::vector<u64> feas;
        std::vector<Expr*> pcs = st.pc;
        bool             full = true;
        for (int it = 0; it < 24; ++it)
        {
            Expr* ex = X.C(1, 1);
            for (u64 f : feas)
                ex = X.and1(ex, X.not1(X.cmp(K::Eq, rel, X.C(f, 64))));
            ModelP m2;
            Res    r = feas.empty() ? Res::Sat : S->check(st.pc, ex, st.model, m2);
            if (feas.empty())
            {
                feas.push_back(off);
                continue;
            }
            if (r != Res::Sat)
            {
                full = r != Res::Unsat;
                break;
            }
            feas.push_back((u64) S->eval(rel, m2));
        }
        if (!full)
        {
            std::sort(feas.begin(), feas.end());
            l.cands = feas;
        }
    }
    if (l.cands.size() == 1)
        return {id, l.cands[0], nullptr, {}};
    return l;
}

static Expr* muxTree(State& st, Obj* o, Expr* off, const std::vector<u64>& cands, size_t lo, size_t hi, unsigned w)
{
    if (hi - lo == 1)
        return E(loadBits(st, o, cands[lo], w), w);
    size_t mid = (lo + hi) / 2;
    Expr*  l   = muxTree(st, o, off, cands, lo, mid, w);
    Expr*  r   = muxTree(st, o, off, cands, mid, hi, w);
    if (l == r)
        return l;
    Expr* c = (mid - lo == 1 && hi - lo == 2) ? X.cmp(K::Eq, off, X.C(cands[lo], 64)) : X.cmp(K::Ult, off, X.C(cands[mid], 64));
    return X.ite(c, l, r);
}

static Val loadAt(State& st, const Loc& l, u64 delta, unsigned w)
{
    Obj* o = st.mem.get(l.id);
    if (!l.symOff)
        return loadBits(st, o, l.off + delta, w);
    std::vector<u64> c = l.cands;
    for (auto& x : c)
        x += delta;
    Expr* off = delta ? X.bin(K::Add, l.symOff, X.C(delta, 64)) : l.symOff;
    return mkv(muxTree(st, o, off, c, 0, c.size(), w));
}
static void storeAt(State& st, const Loc& l, u64 delta, unsigned w, const Val& v)
{
    Obj* o = st.mem.wget(l.id);
    if (o->ro)
        fatal(st, "memory", "store to constant memory");
    if (!l.symOff)
    {
        storeBits(o, l.off + delta, w, v);
        return;
    }
    Expr* ve = E(v, w);
    // read all old values first (candidate windows may overlap)
    std::vector<Expr*> olds;
    for (u64 c : l.cands)
        olds.push_back(E(loadBits(st, o, c + delta, w), w));
    bool overlap = false;
    for (size_t i = 1; i < l.cands.size(); ++i)
        if (l.cands[i] - l.cands[i - 1] < (w + 7) / 8)
            overlap = true;
    if (overlap)
        engineError(st, "overlapping symbolic store");
    for (size_t i = 0; i < l.cands.size(); ++i)
        storeBits(o, l.cands[i] + delta, w, mkv(X.ite(X.cmp(K::Eq, l.symOff, X.C(l.cands[i], 64)), ve, olds[i])));
}

static u64 allocObj(State& st, u64 size, ObjKind k, int fill)
{
    if (size > 0x40000000ull)
        engineError(st, "allocation too large: " + std::to_string(size));
    return st.mem.add(newObj((uint32_t) size, k, fill)) << 32;
}

// convenience for builtins: concrete pointer (concretizing)
static u64 cptr(State& st, const Val& v)
{
    return concretize(st, v, 64);
}
static std::string readCStr(State& st, const Val& p)
{
    u64         a = cptr(st, p);
    std::string s;
    Obj*        o = st.mem.get(a >> 32);
    for (u64 off = a & 0xffffffffu; o && off < o->size; ++off)
    {
        if (o->sym && o->sym[off].e)
            return s + "?";
        if (!o->data[off])
            break;
        s += (char) o->data[off];
    }
    return s;
}

// ------------------------------------------------------------------------------------------------ types & constants
static unsigned scalarBits(Type* t)
{
    if (t->isPointerTy())
        return 64;
    if (t->isIntegerTy())
        return t->getIntegerBitWidth();
    if (t->isFloatTy())
        return 32;
    if (t->isDoubleTy())
        return 64;
    if (t->isHalfTy())
        return 16;
    if (t->isX86_FP80Ty())
        return 80;
    if (t->isFP128Ty())
        return 128;
    return 0;
}
static void flatten(Type* t, u64 off, std::vector<Leaf>& out)
{
    if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy())
        return;
    if (auto* s = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            flatten(s->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t))
    {
        u64 sz = DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); ++i)
            flatten(a->getElementType(), off + i * sz, out);
        return;
    }
    if (auto* v = dyn_cast<FixedVectorType>(t))
    {
        u64 bits = DL->getTypeSizeInBits(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); ++i)
            flatten(v->getElementType(), off + i * bits / 8, out);
        return;
    }
    unsigned w = scalarBits(t);
    if (!w || w > 128)
    {
        std::string s;
        raw_string_ostream os(s);
        t->print(os);
        fprintf(stderr, "unsupported type %s\n", s.c_str());
        exit(92);
    }
    out.push_back({w, off});
}
static unsigned leafCount(Type* t)
{
    std::vector<Leaf> l;
    flatten(t, 0, l);
    return (unsigned) l.size();
}

static Func* getFunc(Function* F);
static u64   addrOf(GlobalValue* g);

static void constVals(Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<ConstantTokenNone>(c))
    {
        std::vector<Leaf> l;
        flatten(t, 0, l);
        for (auto& x : l)
            out.push_back(x.w > 64 ? Val{X.C(0, x.w), 0} : cv(0));
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        unsigned w = ci->getBitWidth();
        if (w <= 64)
            out.push_back(cv(ci->getZExtValue()));
        else
        {
            u128 v = ((u128) ci->getValue().getRawData()[1] << 64) | ci->getValue().getRawData()[0];
            out.push_back({X.C(v, w), 0});
        }
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APInt    a = cf->getValueAPF().bitcastToAPInt();
        unsigned w = a.getBitWidth();
        if (w <= 64)
            out.push_back(cv(a.getZExtValue()));
        else
            out.push_back({X.C(((u128) a.getRawData()[1] << 64) | a.getRawData()[0], w), 0});
        return;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c))
    {
        out.push_back(cv(addrOf(gv)));
        return;
    }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c))
    {
        for (unsigned i = 0; i < cds->getNumElements(); ++i)
            constVals(cds->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(c))
    {
        for (unsigned i = 0; i < c->getNumOperands(); ++i)
            constVals(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        auto one = [&](unsigned i)
        {
            std::vector<Val> v;
            constVals(cast<Constant>(ce->getOperand(i)), v);
            return v[0].e ? (u64) v[0].e->cv : v[0].c;
        };
        auto wof = [&](unsigned i) { return scalarBits(ce->getOperand(i)->getType()); };
        unsigned w = scalarBits(t);
        switch (ce->getOpcode())
        {
            case Instruction::GetElementPtr:
            {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off))
                    break;
                out.push_back(cv(one(0) + off.getSExtValue()));
                return;
            }
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::Trunc:
            case Instruction::ZExt: out.push_back(cv(one(0) & mask64(w))); return;
            case Instruction::SExt: out.push_back(cv((u64) sextv(one(0), wof(0)) & mask64(w))); return;
            case Instruction::Add: out.push_back(cv((one(0) + one(1)) & mask64(w))); return;
            case Instruction::Sub: out.push_back(cv((one(0) - one(1)) & mask64(w))); return;
            case Instruction::Mul: out.push_back(cv((one(0) * one(1)) & mask64(w))); return;
            case Instruction::And: out.push_back(cv(one(0) & one(1))); return;
            case Instruction::Or: out.push_back(cv(one(0) | one(1))); return;
            case Instruction::Xor: out.push_back(cv(one(0) ^ one(1))); return;
            case Instruction::ICmp:
            {
                u64 a = one(0), b = one(1);
                bool r = false;
                switch (ce->getPredicate())
                {
                    case CmpInst::ICMP_EQ: r = a == b; break;
                    case CmpInst::ICMP_NE: r = a != b; break;
                    case CmpInst::ICMP_ULT: r = a < b; break;
                    case CmpInst::ICMP_UGT: r = a > b; break;
                    case CmpInst::ICMP_ULE: r = a <= b; break;
                    case CmpInst::ICMP_UGE: r = a >= b; break;
                    default: break;
                }
                out.push_back(cv(r));
                return;
            }
            default: break;
        }
    }
    std::string        s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "unsupported constant %s\n", s.c_str());
    exit(92);
}

static State* initState;

static u64 addrOf(GlobalValue* g)
{
    if (auto* al = dyn_cast<GlobalAlias>(g))
    {
        std::vector<Val> v;
        constVals(al->getAliasee(), v);
        return v[0].c;
    }
    auto it = gvAddr.find(g);
    if (it != gvAddr.end())
        return it->second;
    if (auto* F = dyn_cast<Function>(g))
    {
        if (F->hasExternalWeakLinkage())
            return gvAddr[g] = 0;
        Func* f = getFunc(F);
        return gvAddr[g] = f->id << 32;
    }
    auto* gv   = cast<GlobalVariable>(g);
    if (gv->hasExternalWeakLinkage())
        return gvAddr[g] = 0;
    u64   size = gv->getValueType()->isSized() ? (u64) DL->getTypeAllocSize(gv->getValueType()) : 0;
    if (gv->isDeclaration() || !gv->hasInitializer())
        size = std::max<u64>(size, 512);
    Obj* o  = newObj((uint32_t) size, gv->isDeclaration() ? OK_Ext : OK_Global, 0);
    u64  id = initState->mem.add(o);
    gvNameById[id] = gv->getName().str();
    if (gv->isThreadLocal())
        tlsIds.insert(id);
    gvAddr[g]      = id << 32;
    if (gv->hasInitializer())
    {
        std::vector<Leaf> l;
        Constant* init = gv->getInitializer();
        std::function<void(Constant*, u64)> put = [&](Constant* c, u64 off)
        {
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
                return;
            Type* t = c->getType();
            if (auto* st = dyn_cast<StructType>(t))
            {
                auto* sl = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i)
                    put(c->getAggregateElement(i), off + sl->getElementOffset(i));
                return;
            }
            if (auto* at = dyn_cast<ArrayType>(t))
            {
                u64 es = DL->getTypeAllocSize(at->getElementType());
                for (u64 i = 0; i < at->getNumElements(); ++i)
                    put(c->getAggregateElement((unsigned) i), off + i * es);
                return;
            }
            std::vector<Leaf> ls;
            flatten(t, 0, ls);
            std::vector<Val> vs;
            constVals(c, vs);
            Obj* oo = initState->mem.get(id);
            for (size_t i = 0; i < ls.size(); ++i)
                storeBits(oo, off + ls[i].off, ls[i].w, vs[i]);
        };
        put(init, 0);
        if (gv->isConstant())
            initState->mem.get(id)->ro = true;
    }
    return id << 32;
}

static Func* getFunc(Function* F)
{
    auto it = funcOf.find(F);
    if (it != funcOf.end())
        return it->second;
    auto* f = new Func;
    f->F    = F;
    f->idx  = (int) funcs.size();
    f->name = F->getName().str();
    funcs.push_back(f);
    funcOf[F]  = f;
    Obj* o     = newObj(0, OK_Func, 0);
    o->tag     = f->idx;
    f->id      = initState->mem.add(o);
    f->vararg  = F->isVarArg();
    auto h     = handlers.find(f->name);
    if (h != handlers.end())
        f->handler = h->second;
    return f;
}

// ------------------------------------------------------------------------------------------------ compile functions
static Handler intrinsicHandler(Function* F);

static void compile(Func* f)
{
    if (f->compiled)
        return;
    f->compiled = true;
    Function*                 F = f->F;
    std::map<const Value*, int> slot;
    int                       ns = 0;
    for (auto& a : F->args())
    {
        slot[&a] = ns;
        ns += (int) leafCount(a.getType());
    }
    f->nargs = ns;
    if (f->vararg)
        ns += 2;
    for (auto& B : *F)
        for (auto& I : B)
        {
            slot[&I] = ns;
            ns += (int) leafCount(I.getType());
        }
    f->nslots = ns;
    auto op   = [&](Value* v) -> int
    {
        if (auto* c = dyn_cast<Constant>(v))
        {
            std::vector<Val> vs;
            constVals(c, vs);
            int i = (int) pool.size();
            for (auto& x : vs)
                pool.push_back(x);
            if (vs.empty())
                pool.push_back(cv(0));
            return ~i;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v))
        {
            pool.push_back(cv(0));
            return ~(int) (pool.size() - 1);
        }
        return slot.at(v);
    };
    std::map<BasicBlock*, int> start;
    // first pass: number of KInsts per block (phis produce none)
    int n = 0;
    for (auto& B : *F)
    {
        start[&B] = n;
        for (auto& I : B)
            if (!isa<PHINode>(I))
                ++n;
    }
    auto mkEdge = [&](BasicBlock* from, BasicBlock* to)
    {
        Edge e;
        e.target = start[to];
        std::set<int> dsts;
        for (auto& ph : to->phis())
        {
            unsigned c = leafCount(ph.getType());
            Value*   v = ph.getIncomingValueForBlock(from);
            int      s = op(v), d = slot[&ph];
            for (unsigned i = 0; i < c; ++i)
            {
                int src = s >= 0 ? s + (int) i : ~(~s + (int) i);
                if (src >= 0 && dsts.count(src))
                    e.hazard = true;
                e.copies.push_back({d + (int) i, src});
            }
            for (unsigned i = 0; i < c; ++i)
                dsts.insert(d + (int) i);
        }
        return e;
    };
    f->code.resize(n);
    n = 0;
    for (auto& B : *F)
        for (auto& I : B)
        {
            if (isa<PHINode>(I))
                continue;
            KInst& k = f->code[n++];
            k.I      = &I;
            k.dst    = slot[&I];
            flatten(I.getType(), 0, k.leaves);
            k.nd = (int) k.leaves.size();
            Type* t = I.getType();
            auto  elems = [&](Type* ty) { return ty->isVectorTy() ? ty->getScalarType() : ty; };
            if (auto* b = dyn_cast<BinaryOperator>(&I))
            {
                k.a   = op(b->getOperand(0));
                k.b   = op(b->getOperand(1));
                k.w   = scalarBits(elems(t));
                k.sub = (int) b->getOpcode();
                k.op  = t->getScalarType()->isFloatingPointTy() ? O_FBin : O_Bin;
            }
            else if (auto* c = dyn_cast<CmpInst>(&I))
            {
                k.a   = op(c->getOperand(0));
                k.b   = op(c->getOperand(1));
                k.w   = scalarBits(elems(c->getOperand(0)->getType()));
                k.sub = (int) c->getPredicate();
                k.op  = isa<FCmpInst>(c) ? O_FCmp : O_Cmp;
            }
            else if (auto* u = dyn_cast<UnaryOperator>(&I))
            {
                k.a  = op(u->getOperand(0));
                k.w  = scalarBits(elems(t));
                k.op = O_FNeg;
            }
            else if (auto* c = dyn_cast<CastInst>(&I))
            {
                k.op  = O_Cast;
                k.sub = (int) c->getOpcode();
                k.a   = op(c->getOperand(0));
                flatten(c->getOperand(0)->getType(), 0, k.leaves2);
            }
            else if (auto* s = dyn_cast<SelectInst>(&I))
            {
                k.op = O_Select;
                k.a  = op(s->getCondition());
                k.b  = op(s->getTrueValue());
                k.c  = op(s->getFalseValue());
                k.sub = s->getCondition()->getType()->isVectorTy();
            }
            else if (auto* l = dyn_cast<LoadInst>(&I))
            {
                k.op  = O_Load;
                k.sub = l->isAtomic();
                k.a   = op(l->getPointerOperand());
                k.imm = DL->getTypeStoreSize(t);
            }
            else if (auto* s = dyn_cast<StoreInst>(&I))
            {
                k.op = O_Store;
                k.sub = s->isAtomic();
                k.a  = op(s->getPointerOperand());
                k.b  = op(s->getValueOperand());
                flatten(s->getValueOperand()->getType(), 0, k.leaves2);
                k.imm = DL->getTypeStoreSize(s->getValueOperand()->getType());
            }
            else if (auto* g = dyn_cast<GetElementPtrInst>(&I))
            {
                k.op = O_Gep;
                if (t->isVectorTy())
                {
                    k.op = O_Unsupported;
                    continue;
                }
                k.a     = op(g->getPointerOperand());
                u64 off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
                {
                    Value* idx = gi.getOperand();
                    if (auto* st = gi.getStructTypeOrNull())
                    {
                        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        continue;
                    }
                    u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx))
                        off += (u64) ci->getSExtValue() * sc;
                    else
                        k.gidx.push_back({op(idx), scalarBits(idx->getType()), sc});
                }
                k.imm = off;
            }
            else if (auto* al = dyn_cast<AllocaInst>(&I))
            {
                k.op  = O_Alloca;
                k.imm = DL->getTypeAllocSize(al->getAllocatedType());
                k.a   = op(al->getArraySize());
                k.w   = scalarBits(al->getArraySize()->getType());
            }
            else if (auto* cb = dyn_cast<CallBase>(&I))
            {
                k.op = isa<InvokeInst>(cb) ? O_Invoke : O_Call;
                if (isa<CallBrInst>(cb))
                {
                    k.op = O_Unsupported;
                    continue;
                }
                for (unsigned i = 0; i < cb->arg_size(); ++i)
                {
                    Value*            v = cb->getArgOperand(i);
                    std::vector<Leaf> l;
                    flatten(v->getType(), 0, l);
                    int o = op(v);
                    for (size_t j = 0; j < l.size(); ++j)
                    {
                        k.ops.push_back(o >= 0 ? o + (int) j : ~(~o + (int) j));
                        k.opw.push_back(l[j].w);
                        k.byval.push_back(j == 0 && cb->isByValArgument(i) ? (u64) DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
                    }
                }
                if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()))
                {
                    k.callee = getFunc(cf);
                    if (cf->isIntrinsic())
                        k.handler = intrinsicHandler(cf);
                    else
                        k.handler = k.callee->handler;
                }
                else if (isa<InlineAsm>(cb->getCalledOperand()))
                {
                    k.sub = 1;
                }
                else
                    k.a = op(cb->getCalledOperand());
                if (auto* iv = dyn_cast<InvokeInst>(cb))
                {
                    k.edges.push_back(mkEdge(&B, iv->getNormalDest()));
                    k.edges.push_back(mkEdge(&B, iv->getUnwindDest()));
                }
            }
            else if (auto* r = dyn_cast<ReturnInst>(&I))
            {
                k.op = O_Ret;
                k.nd = 0;
                if (r->getReturnValue())
                {
                    k.a = op(r->getReturnValue());
                    flatten(r->getReturnValue()->getType(), 0, k.leaves2);
                }
            }
            else if (auto* br = dyn_cast<BranchInst>(&I))
            {
                if (br->isConditional())
                {
                    k.op = O_CondBr;
                    k.a  = op(br->getCondition());
                    k.edges.push_back(mkEdge(&B, br->getSuccessor(0)));
                    k.edges.push_back(mkEdge(&B, br->getSuccessor(1)));
                }
                else
                {
                    k.op = O_Br;
                    k.edges.push_back(mkEdge(&B, br->getSuccessor(0)));
                }
            }
            else if (auto* sw = dyn_cast<SwitchInst>(&I))
            {
                k.op = O_Switch;
                k.a  = op(sw->getCondition());
                k.w  = scalarBits(sw->getCondition()->getType());
                k.edges.push_back(mkEdge(&B, sw->getDefaultDest()));
                std::map<BasicBlock*, int> em;
                em[sw->getDefaultDest()] = 0;
                for (auto& cs : sw->cases())
                {
                    auto [it, fresh] = em.emplace(cs.getCaseSuccessor(), (int) k.edges.size());
                    if (fresh)
                        k.edges.push_back(mkEdge(&B, cs.getCaseSuccessor()));
                    k.cases.push_back({cs.getCaseValue()->getZExtValue(), it->second});
                }
            }
            else if (isa<UnreachableInst>(&I))
                k.op = O_Unreachable;
            else if (isa<FreezeInst>(&I))
            {
                k.op = O_Copy;
                k.a  = op(I.getOperand(0));
            }
            else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
            {
                k.op = O_ExtractV;
                k.a  = op(ev->getAggregateOperand());
                Type*    ty = ev->getAggregateOperand()->getType();
                unsigned o  = 0;
                for (unsigned ix : ev->indices())
                {
                    if (auto* st = dyn_cast<StructType>(ty))
                    {
                        for (unsigned i = 0; i < ix; ++i)
                            o += leafCount(st->getElementType(i));
                        ty = st->getElementType(ix);
                    }
                    else
                    {
                        ty = cast<ArrayType>(ty)->getElementType();
                        o += ix * leafCount(ty);
                    }
                }
                k.imm = o;
            }
            else if (auto* iv = dyn_cast<InsertValueInst>(&I))
            {
                k.op = O_InsertV;
                k.a  = op(iv->getAggregateOperand());
                k.b  = op(iv->getInsertedValueOperand());
                Type*    ty = t;
                unsigned o  = 0;
                for (unsigned ix : iv->indices())
                {
                    if (auto* st = dyn_cast<StructType>(ty))
                    {
                        for (unsigned i = 0; i < ix; ++i)
                            o += leafCount(st->getElementType(i));
                        ty = st->getElementType(ix);
                    }
                    else
                    {
                        ty = cast<ArrayType>(ty)->getElementType();
                        o += ix * leafCount(ty);
                    }
                }
                k.imm = o;
                k.w2  = leafCount(iv->getInsertedValueOperand()->getType());
            }
            else if (auto* ee = dyn_cast<ExtractElementInst>(&I))
            {
                k.op = O_ExtractE;
                k.a  = op(ee->getVectorOperand());
                k.b  = op(ee->getIndexOperand());
                k.w2 = leafCount(ee->getVectorOperand()->getType());
                k.w  = scalarBits(ee->getIndexOperand()->getType());
            }
            else if (auto* ie = dyn_cast<InsertElementInst>(&I))
            {
                k.op = O_InsertE;
                k.a  = op(ie->getOperand(0));
                k.b  = op(ie->getOperand(1));
                k.c  = op(ie->getOperand(2));
                k.w  = scalarBits(ie->getOperand(2)->getType());
            }
            else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I))
            {
                k.op    = O_Shuffle;
                k.a     = op(sv->getOperand(0));
                k.b     = op(sv->getOperand(1));
                k.w2    = leafCount(sv->getOperand(0)->getType());
                for (int m : sv->getShuffleMask())
                    k.ops.push_back(m);
            }
            else if (isa<ResumeInst>(&I))
                k.op = O_Resume;
            else if (isa<LandingPadInst>(&I))
                k.op = O_LandingPad;
            else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I))
            {
                k.op  = O_CmpXchg;
                k.a   = op(cx->getPointerOperand());
                k.b   = op(cx->getCompareOperand());
                k.c   = op(cx->getNewValOperand());
                k.w   = scalarBits(cx->getCompareOperand()->getType());
            }
            else if (auto* rm = dyn_cast<AtomicRMWInst>(&I))
            {
                k.op  = O_RMW;
                k.sub = (int) rm->getOperation();
                k.a   = op(rm->getPointerOperand());
                k.b   = op(rm->getValOperand());
                k.w   = scalarBits(t);
            }
            else if (isa<FenceInst>(&I))
            {
                k.op = O_Copy;
                k.nd = 0;
            }
            else
                k.op = O_Unsupported;
        }
}

// ------------------------------------------------------------------------------------------------ execution helpers
static inline Val rd(State& st, const Frame& f, int op)
{
    return op >= 0 ? st.regs[f.base + op] : pool[~op];
}
static inline void wr(State& st, const Frame& f, int slot, Val v)
{
    st.regs[f.base + slot] = v;
}
static void takeEdge(State& st, Frame& f, const Edge& e)
{
    if (!e.copies.empty())
    {
        if (!e.hazard)
        {
            for (auto& c : e.copies)
                st.regs[f.base + c.first] = rd(st, f, c.second);
        }
        else
        {
            Val  buf[64];
            Val* b = buf;
            std::vector<Val> big;
            if (e.copies.size() > 64)
            {
                big.resize(e.copies.size());
                b = big.data();
            }
            for (size_t i = 0; i < e.copies.size(); ++i)
                b[i] = rd(st, f, e.copies[i].second);
            for (size_t i = 0; i < e.copies.size(); ++i)
                st.regs[f.base + e.copies[i].first] = b[i];
        }
    }
    f.pc = e.target;
}

static void advance(State& st)
{
    Frame& f = st.fr.back();
    KInst& k = f.f->code[f.pc];
    if (k.op == O_Invoke)
        takeEdge(st, f, k.edges[0]);
    else
        ++f.pc;
}
static void setRet(State& st, KInst& k, Val v)
{
    if (k.nd > 0)
        wr(st, st.fr.back(), k.dst, v);
}

static void pushFrame(State& st, Func* fn, const std::vector<Val>& args, int retDst, int retNd)
{
    if (fn->F->isDeclaration())
        engineError(st, "call to unmodelled external function " + fn->name + " (" + demangle(fn->name) + ")");
    compile(fn);
    fn->executed = true;
    if (st.fr.size() > 3000)
        fatal(st, "stack-overflow", "call depth exceeds 3000");
    Frame nf;
    nf.f      = fn;
    nf.pc     = 0;
    nf.base   = (uint32_t) st.regs.size();
    nf.retDst = retDst;
    nf.retNd  = retNd;
    st.regs.resize(st.regs.size() + (size_t) fn->nslots, cv(0));
    for (int i = 0; i < fn->nargs && i < (int) args.size(); ++i)
        st.regs[nf.base + (uint32_t) i] = args[(size_t) i];
    if (fn->vararg)
    {
        // spill the variadic part into an object laid out as an overflow area of 8-byte slots
        u64 n = args.size() > (size_t) fn->nargs ? args.size() - (size_t) fn->nargs : 0;
        u64 a = allocObj(st, 8 * n + 8, OK_Stack, 0);
        Obj* o = st.mem.wget(a >> 32);
        for (u64 i = 0; i < n; ++i)
        {
            Val v = args[(size_t) fn->nargs + i];
            storeBits(o, 8 * i, v.e ? v.e->w : 64, v);
        }
        st.regs[nf.base + (uint32_t) fn->nargs] = cv(a);
        nf.allocas.push_back(a >> 32);
    }
    st.fr.push_back(std::move(nf));
}
static void popFrame(State& st)
{
    Frame& f = st.fr.back();
    for (u64 id : f.allocas)
        st.mem.drop(id);
    st.regs.resize(f.base);
    st.fr.pop_back();
}

// ------------------------------------------------------------------------------------------------ exceptions
static u64 readPtrRaw(State& st, u64 a)
{
    Obj* o = st.mem.get(a >> 32);
    u64  off = a & 0xffffffffu;
    if (!o || off + 8 > o->size)
        return 0;
    u64 v = 0;
    memcpy(&v, o->data + off, 8);
    return v;
}
// does the thrown type match the handler type? adjusts ptr.
static bool typeMatches(State& st, u64 thrown, u64 handler, u64& adj, int depth = 0)
{
    if (handler == 0 || thrown == handler)
        return true;
    if (!thrown || depth > 20)
        return false;
    // identical name => same type (different DSOs/aliases)
    std::string a = gvNameById.count(thrown >> 32) ? gvNameById[thrown >> 32] : "", b = gvNameById.count(handler >> 32) ? gvNameById[handler >> 32] : "";
    if (!a.empty() && a == b)
        return true;
    u64         vt  = readPtrRaw(st, thrown);
    std::string vtn = gvNameById.count(vt >> 32) ? gvNameById[vt >> 32] : "";
    if (vtn.find("__si_class_type_info") != std::string::npos)
        return typeMatches(st, readPtrRaw(st, thrown + 16), handler, adj, depth + 1);
    if (vtn.find("__vmi_class_type_info") != std::string::npos)
    {
        u64 cnt = readPtrRaw(st, thrown + 16) >> 32;
        for (u64 i = 0; i < cnt; ++i)
        {
            u64 base = readPtrRaw(st, thrown + 24 + 16 * i), fl = readPtrRaw(st, thrown + 32 + 16 * i);
            u64 save = adj;
            if (!(fl & 1))
                adj += (u64) ((int64_t) fl >> 8);
            if (typeMatches(st, base, handler, adj, depth + 1))
                return true;
            adj = save;
        }
    }
    return false;
}
static int selectorFor(u64 ti)
{
    auto it = typeIdOf.find(ti);
    if (it != typeIdOf.end())
        return it->second;
    int n        = (int) typeIdOf.size() + 1;
    typeIdOf[ti] = n;
    return n;
}
static u64 constAddr(Constant* c)
{
    std::vector<Val> v;
    constVals(c, v);
    return v.empty() ? 0 : v[0].c;
}
static std::string excName(State& st, u64 ti)
{
    (void) st;
    auto it = gvNameById.find(ti >> 32);
    if (it == gvNameById.end())
        return "unknown";
    std::string s = demangle(it->second);
    const std::string p = "typeinfo for ";
    return s.rfind(p, 0) == 0 ? s.substr(p.size()) : s;
}
// unwinds the state from its current top frame (the throwing call is the current instruction of the top frame)
static void unwind(State& st)
{
    // phase 1: is there any handler?
    bool handled = false;
    for (size_t i = st.fr.size(); i-- > 0 && !handled;)
    {
        Frame& f = st.fr[i];
        KInst& k = f.f->code[f.pc];
        if (k.op != O_Invoke)
        {
            if (f.f->F->doesNotThrow())
                break;
            continue;
        }
        auto* lp = cast<InvokeInst>(k.I)->getUnwindDest()->getLandingPadInst();
        for (unsigned c = 0; c < lp->getNumClauses(); ++c)
        {
            if (lp->isCatch(c))
            {
                u64 adj = st.cur.obj;
                if (typeMatches(st, st.cur.type, constAddr(lp->getClause(c)), adj))
                    handled = true;
            }
            else
                handled = true;  // filters: treated as terminate handlers
        }
    }
    if (!handled)
        fatal(st, "exception", "uncaught exception of type " + excName(st, st.cur.type));
    // phase 2
    while (!st.fr.empty())
    {
        Frame& f = st.fr.back();
        KInst& k = f.f->code[f.pc];
        if (k.op == O_Invoke)
        {
            auto* lp  = cast<InvokeInst>(k.I)->getUnwindDest()->getLandingPadInst();
            bool  hit = false;
            int   sel = 0;
            u64   ptr = st.cur.obj;
            for (unsigned c = 0; c < lp->getNumClauses() && !hit; ++c)
                if (lp->isCatch(c))
                {
                    u64 ti  = constAddr(lp->getClause(c));
                    u64 adj = st.cur.obj;
                    if (typeMatches(st, st.cur.type, ti, adj))
                    {
                        hit = true;
                        sel = selectorFor(ti);
                        ptr = adj;
                    }
                }
                else
                {
                    hit = true;
                    sel = -1;
                }
            if (hit || lp->isCleanup())
            {
                st.sel    = sel;
                st.selPtr = st.cur.obj;
                // remember adjusted pointer for begin_catch
                for (auto& t : st.thrown)
                    if (t.obj == st.cur.obj)
                        t.dtor = ptr;
                takeEdge(st, f, k.edges[1]);
                return;
            }
        }
        popFrame(st);
    }
    fatal(st, "exception", "uncaught exception (no frame)");
}

// ------------------------------------------------------------------------------------------------ arithmetic
static inline int64_t sx(u64 v, unsigned w)
{
    return w >= 64 ? (int64_t) v : ((int64_t) (v << (64 - w))) >> (64 - w);
}
static void divZero(State& st, KInst& k, const Val& a, const Val& b, bool sgn)
{
    unsigned w = k.w;
    if (conc(b))
    {
        if (b.c == 0 && w <= 64)
            fatal(st, "arithmetic", "division by zero");
    }
    else if (b.e->k != K::Const)
    {
        Expr* z = X.cmp(K::Eq, b.e, X.C(0, w));
        if (decide(st, z))
            fatal(st, "arithmetic", "division by zero");
    }
    else if (b.e->cv == 0)
        fatal(st, "arithmetic", "division by zero");
    if (sgn)
    {
        Expr* bad = X.and1(X.cmp(K::Eq, E(b, w), X.C(maskw(w), w)), X.cmp(K::Eq, E(a, w), X.C((u128) 1 << (w - 1), w)));
        if (bad->k == K::Const)
        {
            if (bad->cv)
                fatal(st, "arithmetic", "signed division overflow");
        }
        else if (decide(st, bad))
            fatal(st, "arithmetic", "signed division overflow");
    }
}
static Val binop(State& st, KInst& k, Val a, Val b)
{
    unsigned w = k.w;
    if (conc(a) && conc(b) && w <= 64)
    {
        u64 m = mask64(w), x = a.c, y = b.c;
        switch (k.sub)
        {
            case Instruction::Add: return cv((x + y) & m);
            case Instruction::Sub: return cv((x - y) & m);
            case Instruction::Mul: return cv((x * y) & m);
            case Instruction::And: return cv(x & y);
            case Instruction::Or: return cv(x | y);
            case Instruction::Xor: return cv(x ^ y);
            case Instruction::Shl: return cv(y >= w ? 0 : (x << y) & m);
            case Instruction::LShr: return cv(y >= w ? 0 : (x >> y));
            case Instruction::AShr: return cv((u64) (sx(x, w) >> (y >= w ? w - 1 : y)) & m);
            case Instruction::UDiv: divZero(st, k, a, b, false); return cv(x / y);
            case Instruction::URem: divZero(st, k, a, b, false); return cv(x % y);
            case Instruction::SDiv: divZero(st, k, a, b, true); return cv((u64) (sx(x, w) / sx(y, w)) & m);
            case Instruction::SRem: divZero(st, k, a, b, true); return cv((u64) (sx(x, w) % sx(y, w)) & m);
            default: break;
        }
    }
    K kk;
    switch (k.sub)
    {
        case Instruction::Add: kk = K::Add; break;
        case Instruction::Sub: kk = K::Sub; break;
        case Instruction::Mul: kk = K::Mul; break;
        case Instruction::And: kk = K::And; break;
        case Instruction::Or: kk = K::Or; break;
        case Instruction::Xor: kk = K::Xor; break;
        case Instruction::Shl: kk = K::Shl; break;
        case Instruction::LShr: kk = K::LShr; break;
        case Instruction::AShr: kk = K::AShr; break;
        case Instruction::UDiv: kk = K::UDiv; divZero(st, k, a, b, false); break;
        case Instruction::URem: kk = K::URem; divZero(st, k, a, b, false); break;
        case Instruction::SDiv: kk = K::SDiv; divZero(st, k, a, b, true); break;
        case Instruction::SRem: kk = K::SRem; divZero(st, k, a, b, true); break;
        default: engineError(st, "binop"); 
    }
    return mkv(X.bin(kk, E(a, w), E(b, w)));
}
static Val icmp(int pred, unsigned w, Val a, Val b)
{
    if (conc(a) && conc(b) && w <= 64)
    {
        u64 x = a.c, y = b.c;
        switch (pred)
        {
            case CmpInst::ICMP_EQ: return cv(x == y);
            case CmpInst::ICMP_NE: return cv(x != y);
            case CmpInst::ICMP_ULT: return cv(x < y);
            case CmpInst::ICMP_ULE: return cv(x <= y);
            case CmpInst::ICMP_UGT: return cv(x > y);
            case CmpInst::ICMP_UGE: return cv(x >= y);
            case CmpInst::ICMP_SLT: return cv(sx(x, w) < sx(y, w));
            case CmpInst::ICMP_SLE: return cv(sx(x, w) <= sx(y, w));
            case CmpInst::ICMP_SGT: return cv(sx(x, w) > sx(y, w));
            default: return cv(sx(x, w) >= sx(y, w));
        }
    }
    Expr *x = E(a, w), *y = E(b, w);
    switch (pred)
    {
        case CmpInst::ICMP_EQ: return mkv(X.cmp(K::Eq, x, y));
        case CmpInst::ICMP_NE: return mkv(X.not1(X.cmp(K::Eq, x, y)));
        case CmpInst::ICMP_ULT: return mkv(X.cmp(K::Ult, x, y));
        case CmpInst::ICMP_ULE: return mkv(X.cmp(K::Ule, x, y));
        case CmpInst::ICMP_UGT: return mkv(X.cmp(K::Ult, y, x));
        case CmpInst::ICMP_UGE: return mkv(X.cmp(K::Ule, y, x));
        case CmpInst::ICMP_SLT: return mkv(X.cmp(K::Slt, x, y));
        case CmpInst::ICMP_SLE: return mkv(X.cmp(K::Sle, x, y));
        case CmpInst::ICMP_SGT: return mkv(X.cmp(K::Slt, y, x));
        default: return mkv(X.cmp(K::Sle, y, x));
    }
}
static Val fcmp(int pred, unsigned w, Val a, Val b)
{
    Expr *x = E(a, w), *y = E(b, w);
    auto  oeq = [&] { return X.fop(K::FOeq, 1, 0, x, y); };
    auto  olt = [&] { return X.fop(K::FOlt, 1, 0, x, y); };
    auto  ogt = [&] { return X.fop(K::FOlt, 1, 0, y, x); };
    auto  ole = [&] { return X.fop(K::FOle, 1, 0, x, y); };
    auto  oge = [&] { return X.fop(K::FOle, 1, 0, y, x); };
    auto  uno = [&] { return X.fop(K::FUno, 1, 0, x, y); };
    switch (pred)
    {
        case CmpInst::FCMP_FALSE: return cv(0);
        case CmpInst::FCMP_TRUE: return cv(1);
        case CmpInst::FCMP_OEQ: return mkv(oeq());
        case CmpInst::FCMP_OLT: return mkv(olt());
        case CmpInst::FCMP_OLE: return mkv(ole());
        case CmpInst::FCMP_OGT: return mkv(ogt());
        case CmpInst::FCMP_OGE: return mkv(oge());
        case CmpInst::FCMP_ONE: return mkv(X.or1(olt(), ogt()));
        case CmpInst::FCMP_ORD: return mkv(X.not1(uno()));
        case CmpInst::FCMP_UNO: return mkv(uno());
        case CmpInst::FCMP_UEQ: return mkv(X.or1(uno(), oeq()));
        case CmpInst::FCMP_ULT: return mkv(X.not1(oge()));
        case CmpInst::FCMP_ULE: return mkv(X.not1(ogt()));
        case CmpInst::FCMP_UGT: return mkv(X.not1(ole()));
        case CmpInst::FCMP_UGE: return mkv(X.not1(olt()));
        default: return mkv(X.not1(oeq()));  // UNE
    }
}
static Val fbin(State& st, int op, unsigned w, Val a, Val b)
{
    K k;
    switch (op)
    {
        case Instruction::FAdd: k = K::FAdd; break;
        case Instruction::FSub: k = K::FSub; break;
        case Instruction::FMul: k = K::FMul; break;
        case Instruction::FDiv: k = K::FDiv; break;
        case Instruction::FRem: k = K::FRem; break;
        default: engineError(st, "fbin");
    }
    if (conc(a) && conc(b) && w == 64)
    {
        double x, y, r;
        memcpy(&x, &a.c, 8);
        memcpy(&y, &b.c, 8);
        switch (k)
        {
            case K::FAdd: r = x + y; break;
            case K::FSub: r = x - y; break;
            case K::FMul: r = x * y; break;
            case K::FDiv: r = x / y; break;
            default: r = std::fmod(x, y); break;
        }
        u64 o;
        memcpy(&o, &r, 8);
        return cv(o);
    }
    return mkv(X.fop(k, w, 0, E(a, w), E(b, w)));
}
static Val castOne(State& st, int op, Val v, unsigned sw, unsigned dw)
{
    switch (op)
    {
        case Instruction::Trunc:
            if (conc(v))
                return cv(v.c & mask64(dw));
            return mkv(X.extract(v.e, 0, dw));
        case Instruction::ZExt:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
            if (dw < sw)
                return conc(v) ? cv(v.c & mask64(dw)) : mkv(X.extract(v.e, 0, dw));
            if (conc(v) && dw <= 64)
                return v;
            return mkv(X.zext(E(v, sw), dw));
        case Instruction::SExt:
            if (conc(v) && dw <= 64)
                return cv((u64) sx(v.c, sw) & mask64(dw));
            return mkv(X.sext(E(v, sw), dw));
        case Instruction::FPToSI: return mkv(X.fop(K::FToSI, dw, 0, E(v, sw)));
        case Instruction::FPToUI: return mkv(X.fop(K::FToUI, dw, 0, E(v, sw)));
        case Instruction::SIToFP: return mkv(X.fop(K::SIToF, dw, 0, E(v, sw)));
        case Instruction::UIToFP: return mkv(X.fop(K::UIToF, dw, 0, E(v, sw)));
        case Instruction::FPTrunc:
        case Instruction::FPExt: return mkv(X.fop(K::FToF, dw, 0, E(v, sw)));
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return v;
        default: engineError(st, "cast");
    }
}

#include "builtins.inc"

static void doCall(State& st, Frame& f, KInst& k)
{
    Func*   fn = k.callee;
    Handler h  = k.handler;
    std::vector<Val> args(k.ops.size() + 1);
    for (size_t i = 0; i < k.ops.size(); ++i)
        args[i] = rd(st, f, k.ops[i]);
    if (!fn)
    {
        if (k.sub == 1)
        {
            // inline asm: only the empty compiler barrier is accepted
            auto* ia = cast<InlineAsm>(cast<CallBase>(k.I)->getCalledOperand());
            if (!ia->getAsmString().empty())
                engineError(st, "inline asm");
            if (k.nd)
                engineError(st, "inline asm result");
            advance(st);
            return;
        }
        u64  a = cptr(st, rd(st, f, k.a));
        Obj* o = st.mem.get(a >> 32);
        if (!o || o->kind != OK_Func || (a & 0xffffffffu))
        {
            std::string nm = gvNameById.count(a >> 32) ? gvNameById[a >> 32] : "";
            if (o && o->kind == OK_Ext)
                engineError(st, "indirect call through external object " + nm);
            fatal(st, "memory", "call through invalid function pointer");
        }
        fn = funcs[(size_t) o->tag];
        h  = fn->handler;
    }
    if (h)
    {
        if (h(st, k, args.data()))
            advance(st);
        return;
    }
    if (fn->F->isDeclaration())
    {
        if (fn->F->isIntrinsic())
            engineError(st, "unsupported intrinsic " + fn->name);
        engineError(st, "call to unmodelled external function " + fn->name + " (" + demangle(fn->name) + ")");
    }
    args.resize(k.ops.size());
    std::vector<u64> bv;
    for (size_t i = 0; i < args.size(); ++i)
        if (k.byval[i])
        {
            Loc  l  = resolve(st, args[i], k.byval[i], "load");
            if (l.symOff)
                engineError(st, "symbolic byval");
            u64  na = allocObj(st, k.byval[i], OK_Stack, 0xAB);
            Obj* d  = st.mem.wget(na >> 32);
            Obj* s  = st.mem.get(l.id);
            memcpy(d->data, s->data + l.off, k.byval[i]);
            if (s->sym)
            {
                d->sym = (SymByte*) calloc(d->size + 1, sizeof(SymByte));
                memcpy(d->sym, s->sym + l.off, k.byval[i] * sizeof(SymByte));
            }
            args[i] = cv(na);
            bv.push_back(na >> 32);
        }
    pushFrame(st, fn, args, k.dst, k.nd);
    for (u64 id : bv)
        st.fr.back().allocas.push_back(id);
}

static void endPath(State& st)
{
    ++nPaths;
    if (inCtors)
        return;
    // deterministic reservoir: keep the first few and then a spread sample
    bool keep = samples.size() < maxSamples / 2 || (nPaths & (nPaths - 1)) == 0 || (samples.size() < maxSamples && nPaths % 97 == seed % 97);
    if (!keep || samples.size() >= maxSamples * 2)
        return;
    std::string s = "{\"inputs\":[";
    bool        first = true;
    for (auto& in : inputsUnder(st, st.model))
    {
        s += std::string(first ? "" : ",") + "[\"" + in.first + "\",\"" + in.second.first + "\",\"" + in.second.second + "\"]";
        first = false;
    }
    s += "],\"obs\":[";
    first = true;
    for (auto& o : st.obs)
    {
        u128 v = o.e ? S->eval(o.e, st.model) : (u128) o.c;
        s += std::string(first ? "" : ",") + "\"" + hex128(v) + "\"";
        first = false;
    }
    s += "],\"constraints\":" + std::to_string(st.pc.size()) + ",\"steps\":" + std::to_string(st.steps) + "}";
    samples.push_back(s);
}

// executes until the path ends
static void run(State& st)
{
    try
    {
        while (!st.fr.empty())
        {
            Frame& f = st.fr.back();
            KInst& k = f.f->code[f.pc];
            ++nInstr;
            if (++st.steps > maxSteps)
                fatal(st, "nontermination", "step limit of " + std::to_string(maxSteps) + " instructions exceeded");
            if ((nInstr & 0xfffff) == 0 && now() - t0 > maxTime)
            {
                timedOut = true;
                return;
            }
            switch (k.op)
            {
                case O_Bin:
                    for (int i = 0; i < k.nd; ++i)
                    {
                        int a = k.a >= 0 ? k.a + i : ~(~k.a + i), b = k.b >= 0 ? k.b + i : ~(~k.b + i);
                        wr(st, f, k.dst + i, binop(st, k, rd(st, f, a), rd(st, f, b)));
                    }
                    ++f.pc;
                    break;
                case O_Cmp:
                    for (int i = 0; i < k.nd; ++i)
                    {
                        int a = k.a >= 0 ? k.a + i : ~(~k.a + i), b = k.b >= 0 ? k.b + i : ~(~k.b + i);
                        wr(st, f, k.dst + i, icmp(k.sub, k.w, rd(st, f, a), rd(st, f, b)));
                    }
                    ++f.pc;
                    break;
                case O_FBin:
                    for (int i = 0; i < k.nd; ++i)
                    {
                        int a = k.a >= 0 ? k.a + i : ~(~k.a + i), b = k.b >= 0 ? k.b + i : ~(~k.b + i);
                        wr(st, f, k.dst + i, fbin(st, k.sub, k.w, rd(st, f, a), rd(st, f, b)));
                    }
                    ++f.pc;
                    break;
                case O_FCmp:
                    for (int i = 0; i < k.nd; ++i)
                    {
                        int a = k.a >= 0 ? k.a + i : ~(~k.a + i), b = k.b >= 0 ? k.b + i : ~(~k.b + i);
                        wr(st, f, k.dst + i, fcmp(k.sub, k.w, rd(st, f, a), rd(st, f, b)));
                    }
                    ++f.pc;
                    break;
                case O_FNeg:
                    for (int i = 0; i < k.nd; ++i)
                    {
                        int   a = k.a >= 0 ? k.a + i : ~(~k.a + i);
                        Expr* e = E(rd(st, f, a), k.w);
                        wr(st, f, k.dst + i, mkv(X.bin(K::Xor, e, X.C((u128) 1 << (k.w - 1), k.w))));
                    }
                    ++f.pc;
                    break;
                case O_Cast:
                {
                    if (k.sub == Instruction::BitCast && k.leaves.size() != k.leaves2.size())
                    {
                        Expr* all = nullptr;
                        for (size_t i = 0; i < k.leaves2.size(); ++i)
                        {
                            int   a = k.a >= 0 ? k.a + (int) i : ~(~k.a + (int) i);
                            Expr* e = E(rd(st, f, a), k.leaves2[i].w);
                            all     = all ? X.concat(e, all) : e;
                        }
                        unsigned o = 0;
                        for (size_t i = 0; i < k.leaves.size(); ++i)
                        {
                            wr(st, f, k.dst + (int) i, mkv(X.extract(all, o, k.leaves[i].w)));
                            o += k.leaves[i].w;
                        }
                    }
                    else
                        for (int i = 0; i < k.nd; ++i)
                        {
                            int a = k.a >= 0 ? k.a + i : ~(~k.a + i);
                            wr(st, f, k.dst + i, castOne(st, k.sub, rd(st, f, a), k.leaves2[(size_t) i].w, k.leaves[(size_t) i].w));
                        }
                    ++f.pc;
                    break;
                }
                case O_Select:
                {
                    for (int i = 0; i < k.nd; ++i)
                    {
                        Val c = rd(st, f, k.sub ? (k.a >= 0 ? k.a + i : ~(~k.a + i)) : k.a);
                        Val x = rd(st, f, k.b >= 0 ? k.b + i : ~(~k.b + i)), y = rd(st, f, k.c >= 0 ? k.c + i : ~(~k.c + i));
                        if (conc(c))
                            wr(st, f, k.dst + i, c.c ? x : y);
                        else
                        {
                            unsigned w = k.leaves[(size_t) i].w;
                            bool     v;
                            // pointers: avoid symbolic pointers across objects
                            if (k.I->getType()->isPointerTy() && !(conc(x) && conc(y) && x.c == y.c) &&
                                !(conc(x) && conc(y) && (x.c >> 32) == (y.c >> 32)))
                            {
                                v = decide(st, c.e);
                                wr(st, f, k.dst + i, v ? x : y);
                            }
                            else
                                wr(st, f, k.dst + i, mkv(X.ite(c.e, E(x, w), E(y, w))));
                        }
                    }
                    ++f.pc;
                    break;
                }
                case O_Load:
                {
                    Loc l = resolve(st, rd(st, f, k.a), k.imm, "read");
                    if (st.active && !k.sub)
                        noteAccess(st, (l.id << 32) | (l.symOff ? l.cands[0] : l.off), k.imm, false);
                    for (int i = 0; i < k.nd; ++i)
                        wr(st, f, k.dst + i, loadAt(st, l, k.leaves[(size_t) i].off, k.leaves[(size_t) i].w));
                    ++f.pc;
                    break;
                }
                case O_Store:
                {
                    Loc l = resolve(st, rd(st, f, k.a), k.imm, "write");
                    if (st.active && !k.sub)
                        noteAccess(st, (l.id << 32) | (l.symOff ? l.cands[0] : l.off), k.imm, true);
                    for (size_t i = 0; i < k.leaves2.size(); ++i)
                        storeAt(st, l, k.leaves2[i].off, k.leaves2[i].w, rd(st, f, k.b >= 0 ? k.b + (int) i : ~(~k.b + (int) i)));
                    ++f.pc;
                    break;
                }
                case O_Gep:
                {
                    Val b = rd(st, f, k.a);
                    if (conc(b))
                    {
                        u64  r  = b.c + k.imm;
                        bool ok = true;
                        for (auto& g : k.gidx)
                        {
                            Val v = rd(st, f, g.op);
                            if (!conc(v))
                            {
                                ok = false;
                                break;
                            }
                            r += (u64) sx(v.c, g.w) * g.scale;
                        }
                        if (ok)
                        {
                            wr(st, f, k.dst, cv(r));
                            ++f.pc;
                            break;
                        }
                    }
                    Expr* r = X.bin(K::Add, E(b, 64), X.C(k.imm, 64));
                    for (auto& g : k.gidx)
                    {
                        Expr* i = X.sext(E(rd(st, f, g.op), g.w), 64);
                        Expr* o;
                        if ((g.scale & (g.scale - 1)) == 0)
                        {
                            unsigned s = 0;
                            while ((1ull << s) < g.scale)
                                ++s;
                            o = X.bin(K::Shl, i, X.C(s, 64));
                        }
                        else
                            o = X.bin(K::Mul, i, X.C(g.scale, 64));
                        r = X.bin(K::Add, r, o);
                    }
                    wr(st, f, k.dst, mkv(r));
                    ++f.pc;
                    break;
                }
                case O_Alloca:
                {
                    u64 n = concretize(st, rd(st, f, k.a), k.w);
                    u64 a = allocObj(st, n * k.imm, OK_Stack, 0xAB);
                    f.allocas.push_back(a >> 32);
                    wr(st, f, k.dst, cv(a));
                    ++f.pc;
                    break;
                }
                case O_Call:
                case O_Invoke: doCall(st, f, k); break;
                case O_Ret:
                {
                    Val  buf[16];
                    std::vector<Val> big;
                    Val* r = buf;
                    size_t n = k.leaves2.size();
                    if (n > 16)
                    {
                        big.resize(n);
                        r = big.data();
                    }
                    for (size_t i = 0; i < n; ++i)
                        r[i] = rd(st, f, k.a >= 0 ? k.a + (int) i : ~(~k.a + (int) i));
                    int rd_ = f.retDst, rn = f.retNd;
                    popFrame(st);
                    if (st.fr.empty())
                        break;
                    Frame& c = st.fr.back();
                    for (int i = 0; i < rn && i < (int) n; ++i)
                        wr(st, c, rd_ + i, r[i]);
                    advance(st);
                    break;
                }
                case O_Br: takeEdge(st, f, k.edges[0]); break;
                case O_CondBr:
                {
                    Val c = rd(st, f, k.a);
                    ++nBranches;
                    bool v = conc(c) ? c.c : decide(st, c.e);
                    takeEdge(st, f, k.edges[v ? 0 : 1]);
                    break;
                }
                case O_Switch:
                {
                    Val c = rd(st, f, k.a);
                    ++nBranches;
                    int e = 0;
                    if (conc(c))
                    {
                        for (auto& cs : k.cases)
                            if (cs.first == c.c)
                            {
                                e = cs.second;
                                break;
                            }
                    }
                    else
                    {
                        u64 v = (u64) S->eval(c.e, st.model);
                        for (auto& cs : k.cases)
                            if (cs.first == v)
                            {
                                e = cs.second;
                                break;
                            }
                        Expr* cond;
                        Expr* any = X.C(0, 1);
                        Expr* mine = X.C(0, 1);
                        for (auto& cs : k.cases)
                        {
                            Expr* q = X.cmp(K::Eq, c.e, X.C(cs.first, k.w));
                            if (cs.second == e)
                                mine = X.or1(mine, q);
                            any = X.or1(any, q);
                        }
                        cond = e == 0 ? X.or1(mine, X.not1(any)) : mine;
                        decide(st, cond);
                    }
                    takeEdge(st, f, k.edges[(size_t) e]);
                    break;
                }
                case O_Unreachable: fatal(st, "ub", "unreachable code executed");
                case O_Copy:
                    for (int i = 0; i < k.nd; ++i)
                        wr(st, f, k.dst + i, rd(st, f, k.a >= 0 ? k.a + i : ~(~k.a + i)));
                    ++f.pc;
                    break;
                case O_ExtractV:
                {
                    int a = k.a >= 0 ? k.a + (int) k.imm : ~(~k.a + (int) k.imm);
                    for (int i = 0; i < k.nd; ++i)
                        wr(st, f, k.dst + i, rd(st, f, a >= 0 ? a + i : ~(~a + i)));
                    ++f.pc;
                    break;
                }
                case O_InsertV:
                {
                    for (int i = 0; i < k.nd; ++i)
                    {
                        if (i >= (int) k.imm && i < (int) k.imm + (int) k.w2)
                        {
                            int j = i - (int) k.imm;
                            wr(st, f, k.dst + i, rd(st, f, k.b >= 0 ? k.b + j : ~(~k.b + j)));
                        }
                        else
                            wr(st, f, k.dst + i, rd(st, f, k.a >= 0 ? k.a + i : ~(~k.a + i)));
                    }
                    ++f.pc;
                    break;
                }
                case O_ExtractE:
                {
                    u64 i = concretize(st, rd(st, f, k.b), k.w);
                    if (i >= k.w2)
                        engineError(st, "extractelement index");
                    wr(st, f, k.dst, rd(st, f, k.a >= 0 ? k.a + (int) i : ~(~k.a + (int) i)));
                    ++f.pc;
                    break;
                }
                case O_InsertE:
                {
                    u64 ix = concretize(st, rd(st, f, k.c), k.w);
                    for (int i = 0; i < k.nd; ++i)
                        wr(st, f, k.dst + i, i == (int) ix ? rd(st, f, k.b) : rd(st, f, k.a >= 0 ? k.a + i : ~(~k.a + i)));
                    ++f.pc;
                    break;
                }
                case O_Shuffle:
                {
                    for (int i = 0; i < k.nd; ++i)
                    {
                        int m = k.ops[(size_t) i];
                        Val v = cv(0);
                        if (m >= 0)
                            v = m < (int) k.w2 ? rd(st, f, k.a >= 0 ? k.a + m : ~(~k.a + m)) :
                                                 rd(st, f, k.b >= 0 ? k.b + (m - (int) k.w2) : ~(~k.b + (m - (int) k.w2)));
                        wr(st, f, k.dst + i, v);
                    }
                    ++f.pc;
                    break;
                }
                case O_Resume:
                {
                    Frame& t = st.fr.back();
                    (void) t;
                    popFrame(st);
                    if (st.fr.empty())
                        fatal(st, "exception", "uncaught exception of type " + excName(st, st.cur.type));
                    unwind(st);
                    break;
                }
                case O_LandingPad:
                    wr(st, f, k.dst, cv(st.selPtr));
                    if (k.nd > 1)
                        wr(st, f, k.dst + 1, cv((u64) (uint32_t) st.sel));
                    ++f.pc;
                    break;
                case O_CmpXchg:
                {
                    Loc l   = resolve(st, rd(st, f, k.a), (k.w + 7) / 8, "write");
                    Val old = loadAt(st, l, 0, k.w);
                    Val eq  = icmp(CmpInst::ICMP_EQ, k.w, old, rd(st, f, k.b));
                    bool b  = conc(eq) ? eq.c : decide(st, eq.e);
                    if (b)
                        storeAt(st, l, 0, k.w, rd(st, f, k.c));
                    wr(st, f, k.dst, old);
                    wr(st, f, k.dst + 1, cv(b));
                    ++f.pc;
                    break;
                }
                case O_RMW:
                {
                    Loc      l   = resolve(st, rd(st, f, k.a), (k.w + 7) / 8, "write");
                    Val      old = loadAt(st, l, 0, k.w), v = rd(st, f, k.b);
                    Expr *   a = E(old, k.w), *b = E(v, k.w), *r;
                    switch (k.sub)
                    {
                        case AtomicRMWInst::Xchg: r = b; break;
                        case AtomicRMWInst::Add: r = X.bin(K::Add, a, b); break;
                        case AtomicRMWInst::Sub: r = X.bin(K::Sub, a, b); break;
                        case AtomicRMWInst::And: r = X.bin(K::And, a, b); break;
                        case AtomicRMWInst::Or: r = X.bin(K::Or, a, b); break;
                        case AtomicRMWInst::Xor: r = X.bin(K::Xor, a, b); break;
                        default: engineError(st, "atomicrmw");
                    }
                    storeAt(st, l, 0, k.w, mkv(r));
                    wr(st, f, k.dst, old);
                    ++f.pc;
                    break;
                }
                default:
                {
                    std::string        s;
                    raw_string_ostream os(s);
                    k.I->print(os);
                    engineError(st, "unsupported instruction " + s);
                }
            }
        }
        endPath(st);
    }
    catch (PathEnd&)
    {
        ++nPaths;
    }
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if ((unsigned char) c < 32)
            o += ' ';
        else
            o += c;
    }
    return o + "\"";
}

static void collectLabels(Func* entry, std::set<std::string>& checks, std::set<std::string>& reaches)
{
    std::set<Function*>    seen;
    std::vector<Function*> wl{entry->F};
    while (!wl.empty())
    {
        Function* F = wl.back();
        wl.pop_back();
        if (!seen.insert(F).second)
            continue;
        for (auto& B : *F)
            for (auto& I : B)
            {
                for (auto& o : I.operands())
                    if (auto* g = dyn_cast<Function>(o.get()->stripPointerCasts()))
                        wl.push_back(g);
                auto* cb = dyn_cast<CallBase>(&I);
                if (!cb || !cb->getCalledFunction())
                    continue;
                auto nm = cb->getCalledFunction()->getName();
                if (nm == "vx_check" || nm == "vx_reach")
                {
                    Value* v = cb->getArgOperand(nm == "vx_check" ? 1 : 0);
                    if (auto* gv = dyn_cast<GlobalVariable>(v->stripPointerCasts()))
                        if (gv->hasInitializer())
                            if (auto* cs = dyn_cast<ConstantDataSequential>(gv->getInitializer()))
                                if (cs->isCString())
                                    (nm == "vx_check" ? checks : reaches).insert(cs->getAsCString().str());
                }
            }
    }
}

int main(int argc, char** argv)
{
    std::string file, entry, out;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        val = [&](const char* p) -> const char*
        {
            size_t n = strlen(p);
            return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr;
        };
        if (auto v = val("--entry="))
            entry = v;
        else if (auto v = val("--out="))
            out = v;
        else if (auto v = val("--max-time="))
            maxTime = atof(v);
        else if (auto v = val("--max-steps="))
            maxSteps = strtoull(v, nullptr, 0);
        else if (auto v = val("--max-paths="))
            maxPaths = strtoull(v, nullptr, 0);
        else if (auto v = val("--max-samples="))
            maxSamples = strtoull(v, nullptr, 0);
        else if (auto v = val("--part="))
            partNo = atoi(v);
        else if (auto v = val("--seed="))
            seed = strtoull(v, nullptr, 0);
        else if (auto v = val("--stub="))
        {
            std::stringstream ss(v);
            std::string       x;
            while (std::getline(ss, x, ','))
                stubbed.insert(x);
        }
        else
            file = a;
    }
    t0 = now();
    LLVMContext  ctx;
    SMDiagnostic err;
    auto         mod = parseIRFile(file, err, ctx);
    if (!mod)
    {
        err.print("symx", errs());
        return 93;
    }
    M  = mod.get();
    DL = &M->getDataLayout();
    Solver solver(X);
    S = &solver;
    registerHandlers();
    initState        = new State;
    initState->model = std::make_shared<Model>();
    for (auto& g : M->globals())
        if (!g.getName().starts_with("llvm."))
            addrOf(&g);
    for (auto& F : *M)
        if (!F.getName().starts_with("llvm.") && F.hasAddressTaken())
            getFunc(&F);
    Function* EF = M->getFunction(entry);
    if (!EF || EF->isDeclaration())
    {
        fprintf(stderr, "no such entry %s\n", entry.c_str());
        return 94;
    }
    // static constructors, in priority order
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (gc->hasInitializer())
        {
            std::vector<std::pair<u64, Function*>> cs;
            if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto& o : ca->operands())
                {
                    auto* s = cast<ConstantStruct>(o);
                    if (auto* F = dyn_cast<Function>(s->getOperand(1)))
                        cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F});
                }
            std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            inCtors = true;
            for (auto& c : cs)
            {
                pushFrame(*initState, getFunc(c.second), {}, -1, 0);
                run(*initState);
                if (!initState->fr.empty())
                {
                    fprintf(stderr, "static constructor failed\n");
                    for (auto& e : engineErrors)
                        fprintf(stderr, "  %s\n", e.c_str());
                    initState->fr.clear();
                    initState->regs.clear();
                }
            }
            inCtors = false;
            if (!work.empty())
                engineErrors.push_back("static constructors forked");
            nPaths = 0;
            initState->steps = 0;
        }
    auto* s0 = new State(*initState);
    Func* ef = getFunc(EF);
    pushFrame(*s0, ef, {}, -1, 0);
    work.push_back(s0);
    while (!work.empty())
    {
        State* st = work.back();
        work.pop_back();
        run(*st);
        delete st;
        if (timedOut || now() - t0 > maxTime)
        {
            timedOut = true;
            break;
        }
        if (nPaths > maxPaths)
        {
            timedOut = true;
            break;
        }
    }
    std::set<std::string> cl, rl;
    collectLabels(ef, cl, rl);
    std::string j = "{";
    j += "\"entry\":" + jstr(entry) + ",\"part\":" + std::to_string(partNo);
    j += ",\"complete\":" + std::string(!timedOut && engineErrors.empty() ? "true" : "false");
    j += ",\"timed_out\":" + std::string(timedOut ? "true" : "false");
    j += ",\"pending\":" + std::to_string(work.size());
    auto num = [&](const char* n, u64 v) { j += std::string(",\"") + n + "\":" + std::to_string(v); };
    num("paths", nPaths);
    num("instructions", nInstr);
    num("forks", nForks);
    num("branches", nBranches);
    num("sym_branches", nSymBranches);
    num("checks", nChecks);
    num("sym_checks", nSymChecks);
    num("infeasible", nInfeasible);
    num("queries", S->nQueries);
    num("q_sat", S->nSat);
    num("q_unsat", S->nUnsat);
    num("q_unknown", S->nUnknown);
    num("q_cache", S->nCacheHit);
    num("q_model", S->nModelHit);
    num("q_fallback", S->nFallback);
    num("q_obligation", S->nObl);
    num("q_obligation_z3", S->nOblZ3);
    num("q_crosschecked", S->nCross);
    num("disagreement", S->disagreement);
    num("bb_resets", S->bb.resets);
    num("exprs", X.all.size());
    char b[200];
    snprintf(b, sizeof b, ",\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f", S->solverTime, S->maxQuery, now() - t0);
    j += b;
    j += ",\"errors\":[";
    for (size_t i = 0; i < engineErrors.size() && i < 20; ++i)
        j += (i ? "," : "") + jstr(engineErrors[i]);
    j += "],\"labels\":{";
    bool first = true;
    for (auto& l : cl)
        labelCount[l];
    for (auto& l : labelCount)
    {
        j += (first ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second);
        first = false;
    }
    j += "},\"reach\":{";
    first = true;
    for (auto& l : rl)
        reachCount[l];
    for (auto& l : reachCount)
    {
        j += (first ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second);
        first = false;
    }
    j += "},\"functions\":[";
    std::set<std::string> fns;
    for (auto* f : funcs)
        if (f->executed)
        {
            for (auto& B : *f->F)
                for (auto& I : B)
                    if (auto* L = I.getDebugLoc().get())
                        for (; L; L = L->getInlinedAt())
                            if (auto* sp = L->getScope()->getSubprogram())
                            {
                                std::string fn = sp->getFilename().str();
                                if (!sp->getDirectory().empty() && fn[0] != '/')
                                    fn = sp->getDirectory().str() + "/" + fn;
                                if (fn.find("/include/fiction/") != std::string::npos || fn.find("/vendors/") != std::string::npos)
                                    fns.insert(fn + "|" + (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())));
                            }
        }
    first = true;
    for (auto& f : fns)
    {
        j += (first ? "" : ",") + jstr(f);
        first = false;
    }
    j += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
        j += (i ? "," : "") + samples[i];
    j += "],\"violations\":[";
    for (size_t i = 0; i < violations.size(); ++i)
    {
        auto& v = violations[i];
        j += std::string(i ? "," : "") + "{\"kind\":" + jstr(v.kind) + ",\"label\":" + jstr(v.label) + ",\"where\":" + jstr(v.where) + ",\"inputs\":[";
        bool f1 = true;
        for (auto& in : v.inputs)
        {
            j += std::string(f1 ? "" : ",") + "[" + jstr(in.first) + "," + jstr(in.second.first) + "," + jstr(in.second.second) + "]";
            f1 = false;
        }
        j += "]}";
    }
    j += "]}\n";
    if (out.empty())
        fputs(j.c_str(), stdout);
    else
    {
        FILE* fo = fopen(out.c_str(), "w");
        fputs(j.c_str(), fo);
        fclose(fo);
    }
    fflush(stdout);
    _exit(0);
}
