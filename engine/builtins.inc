// Modelled external functions and intrinsics.  Included by symx.cpp.

// ---------------------------------------------------------------- harness API
static std::map<std::string, Expr*> symByKey;

static Expr* freshSym(State& st, const std::string& name, unsigned w)
{
    std::string key = std::to_string(st.inputs.size()) + "|" + name + "|" + std::to_string(w);
    auto        it  = symByKey.find(key);
    if (it != symByKey.end())
        return it->second;
    return symByKey[key] = X.sym(name, w);
}
static Val makeInput(State& st, const std::string& name, const char* kind, unsigned w)
{
    Expr* e = freshSym(st, name, w);
    st.inputs.push_back({name, kind, e, 0, w});
    return {e, 0};
}
template <unsigned W>
static bool h_vx_int(State& st, KInst& k, Val* a)
{
    setRet(st, k, makeInput(st, readCStr(st, a[0]), W == 64 ? "u64" : W == 32 ? "u32" : W == 16 ? "u16" : "u8", W));
    return true;
}
static bool h_vx_bool(State& st, KInst& k, Val* a)
{
    std::string n = readCStr(st, a[0]);
    Expr*       e = freshSym(st, n, 1);
    st.inputs.push_back({n, "bool", X.zext(e, 8), 0, 8});
    setRet(st, k, {k.leaves[0].w == 1 ? e : X.zext(e, k.leaves[0].w), 0});
    return true;
}
static bool h_vx_f64(State& st, KInst& k, Val* a)
{
    setRet(st, k, makeInput(st, readCStr(st, a[0]), "f64", 64));
    return true;
}
static bool rangeInput(State& st, KInst& k, Val* a, const char* kind)
{
    std::string n  = readCStr(st, a[0]);
    u64         lo = concretize(st, a[1], 64), hi = concretize(st, a[2], 64);
    u64         span = hi - lo;
    if (span == 0)
    {
        st.inputs.push_back({n, kind, nullptr, lo, 64});
        setRet(st, k, cv(lo));
        return true;
    }
    if ((int64_t) span < 0 && span != ~0ull)
        engineError(st, "vx_range with an empty or too large range");
    unsigned bits = 1;
    while (bits < 64 && (span >> bits))
        ++bits;
    Expr* s = freshSym(st, n, bits);
    if (span != mask64(bits))
    {
        Expr* c = X.cmp(K::Ule, s, X.C(span, bits));
        if (!S->eval(c, st.model))
        {
            auto m = std::make_shared<Model>();
            m->v   = st.model->v;
            if (m->v.size() <= s->aux)
                m->v.resize(s->aux + 1, 0);
            m->v[s->aux] = 0;
            st.model     = m;
        }
        addConstraint(st, c);
    }
    Expr* e = X.bin(K::Add, X.zext(s, 64), X.C(lo, 64));
    st.inputs.push_back({n, kind, e, 0, 64});
    setRet(st, k, mkv(e));
    return true;
}
static bool h_vx_range(State& st, KInst& k, Val* a)
{
    return rangeInput(st, k, a, "u64");
}
static bool h_vx_irange(State& st, KInst& k, Val* a)
{
    return rangeInput(st, k, a, "i64");
}
static bool h_vx_part(State& st, KInst& k, Val*)
{
    st.inputs.push_back({"$part", "u64", nullptr, (u64) partNo, 64});
    setRet(st, k, cv((u64) partNo));
    return true;
}
static bool h_vx_assume(State& st, KInst& k, Val* a)
{
    if (conc(a[0]))
    {
        if (!(a[0].c & 1) && a[0].c == 0)
        {
            ++nInfeasible;
            throw PathEnd{};
        }
        return true;
    }
    Expr* c = k.opw[0] == 1 ? a[0].e : X.not1(X.cmp(K::Eq, a[0].e, X.C(0, k.opw[0])));
    if (c->k == K::Const)
    {
        if (!c->cv)
        {
            ++nInfeasible;
            throw PathEnd{};
        }
        return true;
    }
    if (!S->eval(c, st.model))
    {
        ModelP m;
        Res    r = S->check(st.pc, c, st.model, m);
        if (r == Res::Unsat)
        {
            ++nInfeasible;
            throw PathEnd{};
        }
        if (r == Res::Unknown)
            engineError(st, "solver returned unknown on an assumption");
        st.model = m;
    }
    addConstraint(st, c);
    return true;
}
static bool h_vx_check(State& st, KInst& k, Val* a)
{
    std::string label = readCStr(st, a[1]);
    ++nChecks;
    ++labelCount[label];
    if (conc(a[0]))
    {
        if (!a[0].c)
            fatal(st, "check", label);
        return true;
    }
    Expr* c = k.opw[0] == 1 ? a[0].e : X.not1(X.cmp(K::Eq, a[0].e, X.C(0, k.opw[0])));
    bool  kv;
    if (known(st, c, kv))
    {
        if (!kv)
            fatal(st, "check", label);
        return true;
    }
    ++nSymChecks;
    Expr* n = X.not1(c);
    if (S->eval(n, st.model))
    {
        report(st, "check", label, st.model);
        // continue where the property holds, if anywhere
        ModelP m;
        if (S->check(st.pc, c, st.model, m) != Res::Sat)
            throw PathEnd{};
        st.model = m;
        addConstraint(st, c);
        return true;
    }
    ModelP m;
    Res    r = S->check(st.pc, n, st.model, m, true);
    if (r == Res::Sat)
        report(st, "check", label, m);
    else if (r == Res::Unknown)
    {
        if (unsup.insert("unknown-check:" + label).second)
            engineErrors.push_back("solver returned unknown on check '" + label + "'");
    }
    addConstraint(st, c);
    return true;
}
static bool h_vx_observe(State& st, KInst&, Val* a)
{
    st.obs.push_back(a[0]);
    return true;
}
static bool h_vx_reach(State& st, KInst&, Val* a)
{
    ++reachCount[readCStr(st, a[0])];
    return true;
}
static bool h_vx_concretize(State& st, KInst& k, Val* a)
{
    setRet(st, k, cv(concretize(st, a[0], 64)));
    return true;
}
static bool h_vx_is_symbolic_run(State& st, KInst& k, Val*)
{
    setRet(st, k, cv(1));
    return true;
}
static bool h_vx_fail(State& st, KInst&, Val* a)
{
    std::string l = readCStr(st, a[0]);
    fatal(st, "check", l);
}

// ---------------------------------------------------------------- heap
static bool h_malloc(State& st, KInst& k, Val* a)
{
    u64 n = concretize(st, a[0], 64);
    setRet(st, k, cv(allocObj(st, n, OK_Heap, 0xAB)));
    return true;
}
static bool h_aligned_alloc(State& st, KInst& k, Val* a)
{
    u64 n = concretize(st, a[1], 64);
    setRet(st, k, cv(allocObj(st, n, OK_Heap, 0xAB)));
    return true;
}
static bool h_calloc(State& st, KInst& k, Val* a)
{
    u64 n = concretize(st, a[0], 64) * concretize(st, a[1], 64);
    setRet(st, k, cv(allocObj(st, n, OK_Heap, 0)));
    return true;
}
static void doFree(State& st, u64 p)
{
    if (!p)
        return;
    Obj* o = st.mem.get(p >> 32);
    if (!o)
        fatal(st, "memory", "double free or free of invalid pointer");
    if (o->kind != OK_Heap || (p & 0xffffffffu))
        fatal(st, "memory", "free of a pointer that was not allocated on the heap");
    st.mem.drop(p >> 32);
}
static bool h_free(State& st, KInst&, Val* a)
{
    doFree(st, cptr(st, a[0]));
    return true;
}
static void copyBytes(State& st, u64 dst, u64 src, u64 n, const char* = "");
static bool h_realloc(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]), n = concretize(st, a[1], 64);
    u64 q = allocObj(st, n, OK_Heap, 0xAB);
    if (p)
    {
        Obj* o = st.mem.get(p >> 32);
        if (!o)
            fatal(st, "memory", "realloc of invalid pointer");
        copyBytes(st, q, p, std::min<u64>(n, o->size));
        doFree(st, p);
    }
    setRet(st, k, cv(q));
    return true;
}

// ---------------------------------------------------------------- memory blocks
static void copyBytes(State& st, u64 dst, u64 src, u64 n, const char*)
{
    if (!n)
        return;
    u64  so = src & 0xffffffffu, dof = dst & 0xffffffffu;
    Obj* s  = st.mem.get(src >> 32);
    if (!s || so + n > s->size || s->kind == OK_Func)
        invalidAccess(st, src, n, "read");
    Obj* d0 = st.mem.get(dst >> 32);
    if (!d0 || dof + n > d0->size || d0->kind == OK_Func)
        invalidAccess(st, dst, n, "write");
    if (d0->ro)
        fatal(st, "memory", "store to constant memory");
    if (st.active)
    {
        noteAccess(st, src, n, false);
        noteAccess(st, dst, n, true);
    }
    Obj* d = st.mem.wget(dst >> 32);
    s      = st.mem.get(src >> 32);
    memmove(d->data + dof, s->data + so, n);
    if (s->sym)
    {
        if (!d->sym)
            d->sym = (SymByte*) calloc(d->size + 1, sizeof(SymByte));
        memmove(d->sym + dof, s->sym + so, n * sizeof(SymByte));
    }
    else if (d->sym)
        for (u64 i = 0; i < n; ++i)
            d->sym[dof + i].e = nullptr;
}
static bool h_memcpy(State& st, KInst& k, Val* a)
{
    u64 n = concretize(st, a[2], k.opw[2]);
    u64 d = cptr(st, a[0]), s = cptr(st, a[1]);
    copyBytes(st, d, s, n);
    setRet(st, k, cv(d));
    return true;
}
static bool h_memset(State& st, KInst& k, Val* a)
{
    u64 n = concretize(st, a[2], k.opw[2]);
    u64 d = cptr(st, a[0]);
    if (n)
    {
        Obj* o  = st.mem.get(d >> 32);
        u64  of = d & 0xffffffffu;
        if (!o || of + n > o->size || o->kind == OK_Func)
            invalidAccess(st, d, n, "write");
        if (o->ro)
            fatal(st, "memory", "store to constant memory");
        if (st.active)
            noteAccess(st, d, n, true);
        o = st.mem.wget(d >> 32);
        if (conc(a[1]))
        {
            memset(o->data + of, (int) (a[1].c & 0xff), n);
            if (o->sym)
                for (u64 i = 0; i < n; ++i)
                    o->sym[of + i].e = nullptr;
        }
        else
        {
            Val b = mkv(X.extract(a[1].e, 0, 8));
            for (u64 i = 0; i < n; ++i)
                storeBits(o, of + i, 8, b);
        }
    }
    setRet(st, k, cv(d));
    return true;
}
static Val byteAt(State& st, u64 p, const char* what = "read")
{
    Obj* o = st.mem.get(p >> 32);
    if (!o || (p & 0xffffffffu) >= o->size)
        invalidAccess(st, p, 1, what);
    return loadBits(st, o, p & 0xffffffffu, 8);
}
static bool h_format_double(State& st, KInst& k, Val* a)
{
    u64    d = cptr(st, a[0]), bits = concretize(st, a[1], 64);
    int    prec = (int) concretize(st, a[2], 32);
    u64    mode = concretize(st, a[3], 32);
    double v;
    memcpy(&v, &bits, 8);
    char buf[390];
    int  n = mode == 1 ? snprintf(buf, sizeof buf, "%.*f", prec, v) : mode == 2 ? snprintf(buf, sizeof buf, "%.*e", prec, v) : snprintf(buf, sizeof buf, "%.*g", prec, v);
    if (n < 0 || n >= (int) sizeof buf)
        engineError(st, "double formatting");
    Obj* o = st.mem.get(d >> 32);
    if (!o || (d & 0xffffffffu) + n > o->size)
        invalidAccess(st, d, n, "write");
    o = st.mem.wget(d >> 32);
    for (int i = 0; i < n; ++i)
        storeBits(o, (d & 0xffffffffu) + i, 8, cv((unsigned char) buf[i]));
    setRet(st, k, cv(n));
    return true;
}
static bool h_parse_double(State& st, KInst& k, Val* a)
{
    std::string t;
    u64         p = cptr(st, a[0]);
    for (u64 i = 0;; ++i)
    {
        u64 c = concretize(st, byteAt(st, p + i), 8);
        if (!c)
            break;
        t.push_back((char) c);
    }
    double v = strtod(t.c_str(), nullptr);
    u64    bits;
    memcpy(&bits, &v, 8);
    setRet(st, k, cv(bits));
    return true;
}
static bool h_memcmp(State& st, KInst& k, Val* a)
{
    u64   n = concretize(st, a[2], 64), p = cptr(st, a[0]), q = cptr(st, a[1]);
    Expr* r = X.C(0, 32);
    std::vector<std::pair<Val, Val>> v;
    for (u64 i = 0; i < n; ++i)
    {
        Val x = byteAt(st, p + i), y = byteAt(st, q + i);
        v.push_back({x, y});
        if (conc(x) && conc(y) && x.c != y.c)
            break;
    }
    for (size_t i = v.size(); i-- > 0;)
    {
        Expr *x = E(v[i].first, 8), *y = E(v[i].second, 8);
        r       = X.ite(X.cmp(K::Eq, x, y), r, X.ite(X.cmp(K::Ult, x, y), X.C(0xffffffff, 32), X.C(1, 32)));
    }
    setRet(st, k, mkv(r));
    return true;
}
static bool h_strlen(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]);
    for (u64 n = 0;; ++n)
    {
        Val b = byteAt(st, p + n);
        bool z = conc(b) ? b.c == 0 : decide(st, X.cmp(K::Eq, b.e, X.C(0, 8)));
        if (z)
        {
            setRet(st, k, cv(n));
            return true;
        }
    }
}
static bool h_strcmp(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]), q = cptr(st, a[1]);
    for (u64 n = 0;; ++n)
    {
        Val x = byteAt(st, p + n), y = byteAt(st, q + n);
        Val eq = icmp(CmpInst::ICMP_EQ, 8, x, y);
        if (!(conc(eq) ? eq.c != 0 : decide(st, eq.e)))
        {
            setRet(st, k, mkv(X.ite(E(icmp(CmpInst::ICMP_ULT, 8, x, y), 1), X.C(0xffffffff, 32), X.C(1, 32))));
            return true;
        }
        Val z = icmp(CmpInst::ICMP_EQ, 8, x, cv(0));
        if (conc(z) ? z.c != 0 : decide(st, z.e))
        {
            setRet(st, k, cv(0));
            return true;
        }
    }
}
static bool h_memchr(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]), n = concretize(st, a[2], 64);
    Val c = k.opw[1] == 8 ? a[1] : mkv(X.extract(E(a[1], k.opw[1]), 0, 8));
    for (u64 i = 0; i < n; ++i)
    {
        Val eq = icmp(CmpInst::ICMP_EQ, 8, byteAt(st, p + i), c);
        if (conc(eq) ? eq.c != 0 : decide(st, eq.e))
        {
            setRet(st, k, cv(p + i));
            return true;
        }
    }
    setRet(st, k, cv(0));
    return true;
}

// ---------------------------------------------------------------- termination
static bool h_abort(State& st, KInst&, Val*)
{
    fatal(st, "abort", "abort() called");
}
static bool h_terminate(State& st, KInst&, Val*)
{
    std::string w = "std::terminate() called";
    if (!st.caught.empty())
        for (auto& t : st.thrown)
            if (t.obj == st.caught.back())
                w += " (exception of type " + excName(st, t.type) + " in a noexcept context)";
    fatal(st, "exception", w);
}
static bool h_assert_fail(State& st, KInst&, Val* a)
{
    std::string l = "assertion failed: " + readCStr(st, a[0]);
    fatal(st, "assert", l);
}
static bool h_glibcxx_assert(State& st, KInst&, Val* a)
{
    std::string l = "libstdc++ assertion failed: " + readCStr(st, a[3]) + " in " + readCStr(st, a[2]);
    fatal(st, "assert", l);
}
static bool h_exit(State& st, KInst&, Val*)
{
    fatal(st, "abort", "exit() called");
}
static bool h_trap(State& st, KInst&, Val*)
{
    fatal(st, "ub", "trap");
}

// ---------------------------------------------------------------- exceptions
static bool h_alloc_exc(State& st, KInst& k, Val* a)
{
    u64 p = allocObj(st, concretize(st, a[0], 64), OK_Heap, 0xAB);
    setRet(st, k, cv(p));
    return true;
}
static bool h_free_exc(State& st, KInst&, Val* a)
{
    doFree(st, cptr(st, a[0]));
    return true;
}
static bool h_throw(State& st, KInst&, Val* a)
{
    ExcInfo e{cptr(st, a[0]), cptr(st, a[1]), 0};
    st.thrown.push_back(e);
    st.cur = e;
    unwind(st);
    return false;
}
static bool h_begin_catch(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]);
    u64 r = p;
    for (auto& t : st.thrown)
        if (t.obj == p && t.dtor)
            r = t.dtor;
    st.caught.push_back(p);
    setRet(st, k, cv(r));
    return true;
}
static bool h_end_catch(State& st, KInst&, Val*)
{
    if (!st.caught.empty())
        st.caught.pop_back();
    return true;
}
static bool h_rethrow(State& st, KInst&, Val*)
{
    if (st.caught.empty())
        fatal(st, "exception", "rethrow without active exception");
    for (auto& t : st.thrown)
        if (t.obj == st.caught.back())
            st.cur = {t.obj, t.type, 0};
    unwind(st);
    return false;
}
static bool h_get_exc_ptr(State& st, KInst& k, Val* a)
{
    setRet(st, k, a[0]);
    return true;
}

// ---------------------------------------------------------------- guards, threads, misc
static bool h_guard_acquire(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]);
    Val b = byteAt(st, p);
    if (!b.c)
        ++st.initDepth;
    setRet(st, k, cv(b.c ? 0 : 1));
    return true;
}
static bool h_guard_release(State& st, KInst&, Val* a)
{
    u64  p = cptr(st, a[0]);
    Obj* o = st.mem.wget(p >> 32);
    storeBits(o, p & 0xffffffffu, 8, cv(1));
    if (st.initDepth)
        --st.initDepth;
    return true;
}
static bool h_thread_enter(State& st, KInst& k, Val* a)
{
    int id = (int) concretize(st, a[0], 32);
    if (id > 60)
        engineError(st, "too many threads");
    st.thread = id;
    st.active |= 1ull << id;
    return true;
}
static bool h_thread_leave(State& st, KInst& k, Val* a)
{
    st.thread = (int) concretize(st, a[0], 32);
    return true;
}
static bool h_thread_joined(State& st, KInst& k, Val* a)
{
    st.active &= ~(1ull << concretize(st, a[0], 32));
    if (!st.active)
        st.accesses.clear();
    return true;
}
static bool h_mutex_lock(State& st, KInst& k, Val* a)
{
    if (st.active)
        st.locks.push_back(cptr(st, a[0]));
    setRet(st, k, cv(0));
    return true;
}
static bool h_mutex_unlock(State& st, KInst& k, Val* a)
{
    u64 p = st.active ? cptr(st, a[0]) : 0;
    for (size_t i = st.locks.size(); i-- > 0;)
        if (st.locks[i] == p)
        {
            st.locks.erase(st.locks.begin() + (long) i);
            break;
        }
    setRet(st, k, cv(0));
    return true;
}
static bool h_ret0(State& st, KInst& k, Val*)
{
    for (int i = 0; i < k.nd; ++i)
        wr(st, st.fr.back(), k.dst + i, k.leaves[(size_t) i].w > 64 ? Val{X.C(0, k.leaves[(size_t) i].w), 0} : cv(0));
    return true;
}
static bool h_ret1(State& st, KInst& k, Val*)
{
    setRet(st, k, cv(1));
    return true;
}
static bool h_retarg0(State& st, KInst& k, Val* a)
{
    setRet(st, k, a[0]);
    return true;
}
static u64 fakeClock = 1000000000ull;
static bool h_clock(State& st, KInst& k, Val*)
{
    fakeClock += 1000;
    setRet(st, k, cv(fakeClock));
    return true;
}
static bool h_dynamic_cast(State& st, KInst& k, Val* a)
{
    u64 p = cptr(st, a[0]), dst = cptr(st, a[2]);
    if (!p)
    {
        setRet(st, k, cv(0));
        return true;
    }
    u64 vt  = readPtrRaw(st, p);
    u64 ti  = readPtrRaw(st, vt - 8);
    u64 top = readPtrRaw(st, vt - 16);
    u64 full = p + top, adj = full;
    setRet(st, k, cv(typeMatches(st, ti, dst, adj) ? adj : 0));
    return true;
}

// ---------------------------------------------------------------- math
typedef double (*F1)(double);
typedef double (*F2)(double, double);
static std::map<std::string, F1> math1;
static std::map<std::string, F2> math2;

static double asD(u64 v)
{
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static u64 asU(double d)
{
    u64 v;
    memcpy(&v, &d, 8);
    return v;
}
static Expr* fabsE(Expr* x)
{
    return X.bin(K::And, x, X.C(maskw(x->w - 1), x->w));
}
static Val math1Val(State& st, const std::string& base, unsigned w, Val v)
{
    if (w == 64 && conc(v))
    {
        auto it = math1.find(base);
        if (it != math1.end())
            return cv(asU(it->second(asD(v.c))));
    }
    if (w == 32 && conc(v))
    {
        float f;
        uint32_t u = (uint32_t) v.c;
        memcpy(&f, &u, 4);
        auto it = math1.find(base);
        if (it != math1.end())
        {
            float r = (float) it->second((double) f);
            memcpy(&u, &r, 4);
            return cv(u);
        }
    }
    Expr* e = E(v, w);
    if (base == "sqrt")
        return mkv(X.fop(K::FSqrt, w, 0, e));
    if (base == "rint" || base == "nearbyint" || base == "roundeven")
        return mkv(X.fop(K::FRint, w, 0, e));
    if (base == "floor")
        return mkv(X.fop(K::FRint, w, 1, e));
    if (base == "ceil")
        return mkv(X.fop(K::FRint, w, 2, e));
    if (base == "trunc")
        return mkv(X.fop(K::FRint, w, 3, e));
    if (base == "round")
        return mkv(X.fop(K::FRint, w, 4, e));
    if (base == "fabs")
        return mkv(fabsE(e));
    engineError(st, "symbolic argument to math function " + base);
}
static Val math2Val(State& st, const std::string& base, unsigned w, Val x, Val y)
{
    if (base == "copysign")
        return mkv(X.bin(K::Or, fabsE(E(x, w)), X.bin(K::And, E(y, w), X.C((u128) 1 << (w - 1), w))));
    if (conc(x) && conc(y) && w == 64)
    {
        auto it = math2.find(base);
        if (it != math2.end())
            return cv(asU(it->second(asD(x.c), asD(y.c))));
    }
    if (base == "fmin" || base == "minnum" || base == "fmax" || base == "maxnum")
    {
        bool  mn = base == "fmin" || base == "minnum";
        Expr *a = E(x, w), *b = E(y, w);
        // NaN handling as in C99: return the non-NaN operand
        Expr* lt = mn ? X.fop(K::FOlt, 1, 0, b, a) : X.fop(K::FOlt, 1, 0, a, b);
        Expr* an = X.fop(K::FUno, 1, 0, a, a);
        return mkv(X.ite(X.or1(an, lt), b, a));
    }
    engineError(st, "symbolic argument to math function " + base);
}
static std::string mathBase(const std::string& n, unsigned& w)
{
    w             = 64;
    std::string b = n;
    if (math1.count(b) || math2.count(b))
        return b;
    if (!b.empty() && b.back() == 'f' && (math1.count(b.substr(0, b.size() - 1)) || math2.count(b.substr(0, b.size() - 1))))
    {
        w = 32;
        return b.substr(0, b.size() - 1);
    }
    return "";
}
static bool h_math(State& st, KInst& k, Val* a)
{
    unsigned    w;
    std::string b = mathBase(k.callee->name, w);
    if (stubbed.count(b))
    {
        // environment stub: an arbitrary value, replayed natively through the input list
        Val v = makeInput(st, "$" + b, "f64", 64);
        setRet(st, k, v);
        return true;
    }
    if (math1.count(b))
        setRet(st, k, math1Val(st, b, w, a[0]));
    else
        setRet(st, k, math2Val(st, b, w, a[0], a[1]));
    return true;
}
static bool h_lround(State& st, KInst& k, Val* a)
{
    unsigned w = k.opw[0];
    Expr*    e = X.fop(K::FRint, w, k.callee->name.find("rint") != std::string::npos ? 0 : 4, E(a[0], w));
    setRet(st, k, mkv(X.fop(K::FToSI, k.leaves[0].w, 0, e)));
    return true;
}

// ---------------------------------------------------------------- intrinsics
static bool i_nop(State&, KInst&, Val*)
{
    return true;
}
static std::string iname(KInst& k)
{
    return k.callee->name;
}
static Val ctpop(Val v, unsigned w)
{
    if (conc(v))
        return cv((u64) __builtin_popcountll(v.c));
    Expr* r = X.C(0, w);
    // add bits in a tree
    std::vector<Expr*> p;
    for (unsigned i = 0; i < w; ++i)
    {
        Expr* b = X.extract(v.e, i, 1);
        if (!(b->k == K::Const && b->cv == 0))
            p.push_back(X.zext(b, w));
    }
    while (p.size() > 1)
    {
        std::vector<Expr*> q;
        for (size_t i = 0; i + 1 < p.size(); i += 2)
            q.push_back(X.bin(K::Add, p[i], p[i + 1]));
        if (p.size() % 2)
            q.push_back(p.back());
        p.swap(q);
    }
    return mkv(p.empty() ? r : p[0]);
}
static Val clz(Val v, unsigned w, bool trailing)
{
    if (conc(v) && w <= 64)
    {
        if (!v.c)
            return cv(w);
        return cv(trailing ? (u64) __builtin_ctzll(v.c) : (u64) __builtin_clzll(v.c) - (64 - w));
    }
    Expr* e = E(v, w);
    Expr* r = X.C(w, w);
    for (unsigned i = 0; i < w; ++i)
    {
        // process so that the highest-priority bit is outermost
        unsigned bit = trailing ? w - 1 - i : i;
        u64      val = trailing ? bit : w - 1 - bit;
        r            = X.ite(X.extract(e, bit, 1), X.C(val, w), r);
    }
    return mkv(r);
}
static bool i_generic(State& st, KInst& k, Val* a)
{
    auto*         F   = k.callee->F;
    Intrinsic::ID id  = F->getIntrinsicID();
    size_t        n   = k.leaves.size();
    size_t        per = n ? n : 1;  // vector elements
    unsigned      w   = n ? k.leaves[0].w : 0;
    auto          set = [&](size_t i, Val v) { wr(st, st.fr.back(), k.dst + (int) i, v); };
    switch (id)
    {
        case Intrinsic::umin:
        case Intrinsic::umax:
        case Intrinsic::smin:
        case Intrinsic::smax:
            for (size_t i = 0; i < per; ++i)
            {
                int p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT :
                        id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
                Val c = icmp(p, w, a[i], a[per + i]);
                set(i, conc(c) ? (c.c ? a[i] : a[per + i]) : mkv(X.ite(c.e, E(a[i], w), E(a[per + i], w))));
            }
            return true;
        case Intrinsic::abs:
            for (size_t i = 0; i < per; ++i)
            {
                Expr* e = E(a[i], w);
                set(i, mkv(X.ite(X.cmp(K::Slt, e, X.C(0, w)), X.bin(K::Sub, X.C(0, w), e), e)));
            }
            return true;
        case Intrinsic::ctpop:
            for (size_t i = 0; i < per; ++i)
                set(i, ctpop(a[i], w));
            return true;
        case Intrinsic::ctlz:
        case Intrinsic::cttz:
            for (size_t i = 0; i < per; ++i)
                set(i, clz(a[i], w, id == Intrinsic::cttz));
            return true;
        case Intrinsic::bswap:
        {
            Expr *e = E(a[0], w), *r = nullptr;
            for (unsigned i = 0; i < w; i += 8)
            {
                Expr* b = X.extract(e, i, 8);
                r       = r ? X.concat(r, b) : b;
            }
            set(0, mkv(r));
            return true;
        }
        case Intrinsic::bitreverse:
        {
            Expr *e = E(a[0], w), *r = nullptr;
            for (unsigned i = 0; i < w; ++i)
            {
                Expr* b = X.extract(e, i, 1);
                r       = r ? X.concat(r, b) : b;
            }
            set(0, mkv(r));
            return true;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr:
        {
            Expr *x = E(a[0], w), *y = E(a[1], w), *s = X.bin(K::URem, E(a[2], w), X.C(w, w));
            Expr* inv = X.bin(K::Sub, X.C(w, w), s);
            Expr* z   = X.cmp(K::Eq, s, X.C(0, w));
            Expr* r   = id == Intrinsic::fshl ? X.bin(K::Or, X.bin(K::Shl, x, s), X.bin(K::LShr, y, inv)) :
                                                X.bin(K::Or, X.bin(K::Shl, x, inv), X.bin(K::LShr, y, s));
            set(0, mkv(X.ite(z, id == Intrinsic::fshl ? x : y, r)));
            return true;
        }
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::smul_with_overflow:
        {
            bool  sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            bool  mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            K     kk  = mul ? K::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K::Add : K::Sub;
            unsigned ww = mul ? 2 * w : w + 1;
            if (ww > 128)
                engineError(st, "overflow intrinsic too wide");
            Expr *x = E(a[0], w), *y = E(a[1], w);
            Expr *X2 = sg ? X.sext(x, ww) : X.zext(x, ww), *Y2 = sg ? X.sext(y, ww) : X.zext(y, ww);
            Expr* full = X.bin(kk, X2, Y2);
            Expr* r    = X.bin(kk, x, y);
            Expr* back = sg ? X.sext(r, ww) : X.zext(r, ww);
            set(0, mkv(r));
            set(1, mkv(X.not1(X.cmp(K::Eq, full, back))));
            return true;
        }
        case Intrinsic::uadd_sat:
        {
            Expr *x = E(a[0], w), *y = E(a[1], w), *r = X.bin(K::Add, x, y);
            set(0, mkv(X.ite(X.cmp(K::Ult, r, x), X.C(maskw(w), w), r)));
            return true;
        }
        case Intrinsic::usub_sat:
        {
            Expr *x = E(a[0], w), *y = E(a[1], w);
            set(0, mkv(X.ite(X.cmp(K::Ult, x, y), X.C(0, w), X.bin(K::Sub, x, y))));
            return true;
        }
        case Intrinsic::fabs:
            for (size_t i = 0; i < per; ++i)
                set(i, mkv(fabsE(E(a[i], w))));
            return true;
        case Intrinsic::sqrt:
            for (size_t i = 0; i < per; ++i)
                set(i, math1Val(st, "sqrt", w, a[i]));
            return true;
        case Intrinsic::floor: set(0, math1Val(st, "floor", w, a[0])); return true;
        case Intrinsic::ceil: set(0, math1Val(st, "ceil", w, a[0])); return true;
        case Intrinsic::trunc: set(0, math1Val(st, "trunc", w, a[0])); return true;
        case Intrinsic::rint: set(0, math1Val(st, "rint", w, a[0])); return true;
        case Intrinsic::nearbyint: set(0, math1Val(st, "nearbyint", w, a[0])); return true;
        case Intrinsic::round: set(0, math1Val(st, "round", w, a[0])); return true;
        case Intrinsic::roundeven: set(0, math1Val(st, "rint", w, a[0])); return true;
        case Intrinsic::exp: set(0, math1Val(st, "exp", w, a[0])); return true;
        case Intrinsic::exp2: set(0, math1Val(st, "exp2", w, a[0])); return true;
        case Intrinsic::log: set(0, math1Val(st, "log", w, a[0])); return true;
        case Intrinsic::log2: set(0, math1Val(st, "log2", w, a[0])); return true;
        case Intrinsic::log10: set(0, math1Val(st, "log10", w, a[0])); return true;
        case Intrinsic::sin: set(0, math1Val(st, "sin", w, a[0])); return true;
        case Intrinsic::cos: set(0, math1Val(st, "cos", w, a[0])); return true;
        case Intrinsic::pow: set(0, math2Val(st, "pow", w, a[0], a[1])); return true;
        case Intrinsic::minnum: set(0, math2Val(st, "fmin", w, a[0], a[1])); return true;
        case Intrinsic::maxnum: set(0, math2Val(st, "fmax", w, a[0], a[1])); return true;
        case Intrinsic::copysign: set(0, math2Val(st, "copysign", w, a[0], a[1])); return true;
        case Intrinsic::lround:
        case Intrinsic::llround:
        case Intrinsic::lrint:
        case Intrinsic::llrint:
        {
            unsigned sw = k.opw[0];
            Expr*    e  = X.fop(K::FRint, sw, (id == Intrinsic::lround || id == Intrinsic::llround) ? 4 : 0, E(a[0], sw));
            set(0, mkv(X.fop(K::FToSI, w, 0, e)));
            return true;
        }
        case Intrinsic::powi:
        {
            if (!conc(a[0]) || !conc(a[1]))
                engineError(st, "symbolic powi");
            set(0, cv(asU(__builtin_powi(asD(a[0].c), (int) a[1].c))));
            return true;
        }
        case Intrinsic::fma: set(0, mkv(X.fop(K::FFma, w, 0, E(a[0], w), E(a[1], w), E(a[2], w)))); return true;
        case Intrinsic::fmuladd:
            set(0, mkv(X.fop(K::FAdd, w, 0, X.fop(K::FMul, w, 0, E(a[0], w), E(a[1], w)), E(a[2], w))));
            return true;
        case Intrinsic::is_fpclass:
        {
            unsigned sw = k.opw[0];
            Expr*    e  = E(a[0], sw);
            u64      m  = a[1].c;
            unsigned mant = sw == 64 ? 52 : 23;
            if (sw != 64 && sw != 32)
                engineError(st, "is.fpclass width");
            Expr* sg  = X.extract(e, sw - 1, 1);
            Expr* ex  = X.extract(e, mant, sw - 1 - mant);
            Expr* fr  = X.extract(e, 0, mant);
            Expr* e1  = X.cmp(K::Eq, ex, X.C(maskw(sw - 1 - mant), sw - 1 - mant));
            Expr* e0  = X.cmp(K::Eq, ex, X.C(0, sw - 1 - mant));
            Expr* f0  = X.cmp(K::Eq, fr, X.C(0, mant));
            Expr* qb  = X.extract(e, mant - 1, 1);
            Expr* nan = X.and1(e1, X.not1(f0));
            Expr* inf = X.and1(e1, f0);
            Expr* zer = X.and1(e0, f0);
            Expr* sub = X.and1(e0, X.not1(f0));
            Expr* nor = X.and1(X.not1(e0), X.not1(e1));
            Expr* ns  = X.not1(sg);
            Expr* r   = X.C(0, 1);
            auto  add = [&](unsigned bit, Expr* c)
            {
                if (m & (1u << bit))
                    r = X.or1(r, c);
            };
            add(0, X.and1(nan, X.not1(qb)));
            add(1, X.and1(nan, qb));
            add(2, X.and1(inf, sg));
            add(3, X.and1(nor, sg));
            add(4, X.and1(sub, sg));
            add(5, X.and1(zer, sg));
            add(6, X.and1(zer, ns));
            add(7, X.and1(sub, ns));
            add(8, X.and1(nor, ns));
            add(9, X.and1(inf, ns));
            set(0, mkv(r));
            return true;
        }
        case Intrinsic::expect:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address:
        case Intrinsic::ptr_annotation:
        case Intrinsic::ssa_copy: set(0, a[0]); return true;
        case Intrinsic::ptrmask: set(0, mkv(X.bin(K::And, E(a[0], 64), E(a[1], 64)))); return true;
        case Intrinsic::is_constant: set(0, cv(0)); return true;
        case Intrinsic::objectsize: set(0, cv((a[1].c & 1) ? 0 : ~0ull & mask64(w))); return true;
        case Intrinsic::stacksave: set(0, cv(0)); return true;
        case Intrinsic::eh_typeid_for:
        {
            set(0, cv((u64) (uint32_t) selectorFor(cptr(st, a[0]))));
            return true;
        }
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
        case Intrinsic::debugtrap: fatal(st, "ub", "trap");
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: return h_memcpy(st, k, a);
        case Intrinsic::memset:
        case Intrinsic::memset_inline: return h_memset(st, k, a);
        case Intrinsic::vector_reduce_add:
        case Intrinsic::vector_reduce_or:
        case Intrinsic::vector_reduce_and:
        case Intrinsic::vector_reduce_xor:
        {
            K     kk = id == Intrinsic::vector_reduce_add ? K::Add : id == Intrinsic::vector_reduce_or ? K::Or :
                       id == Intrinsic::vector_reduce_and ? K::And : K::Xor;
            Expr* r  = E(a[0], w);
            for (size_t i = 1; i < k.ops.size(); ++i)
                r = X.bin(kk, r, E(a[i], w));
            set(0, mkv(r));
            return true;
        }
        default: engineError(st, "unsupported intrinsic " + k.callee->name);
    }
}
static Handler intrinsicHandler(Function* F)
{
    switch (F->getIntrinsicID())
    {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::dbg_assign:
        case Intrinsic::assume:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::stackrestore:
        case Intrinsic::prefetch:
        case Intrinsic::donothing:
        case Intrinsic::sideeffect: return i_nop;
        default: return i_generic;
    }
}

static void registerHandlers()
{
    auto& h = handlers;
    h["vx_u64"]        = h_vx_int<64>;
    h["vx_u32"]        = h_vx_int<32>;
    h["vx_u16"]        = h_vx_int<16>;
    h["vx_u8"]         = h_vx_int<8>;
    h["vx_bool"]       = h_vx_bool;
    h["vx_f64"]        = h_vx_f64;
    h["vx_range"]      = h_vx_range;
    h["vx_irange"]     = h_vx_irange;
    h["vx_part"]       = h_vx_part;
    h["vx_assume"]     = h_vx_assume;
    h["vx_check"]      = h_vx_check;
    h["vx_fail"]       = h_vx_fail;
    h["vx_observe"]    = h_vx_observe;
    h["vx_reach"]      = h_vx_reach;
    h["vx_concretize"] = h_vx_concretize;
    h["vx_symbolic"]   = h_vx_is_symbolic_run;

    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t",
                   "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"})
        h[n] = h_malloc;
    h["calloc"]        = h_calloc;
    h["realloc"]       = h_realloc;
    h["aligned_alloc"] = h_aligned_alloc;
    for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
                   "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
        h[n] = h_free;
    h["memcpy"] = h["memmove"] = h_memcpy;
    h["memset"]                = h_memset;
    h["memcmp"] = h["bcmp"] = h_memcmp;
    h["vx_format_double"]   = h_format_double;
    h["vx_parse_double"]    = h_parse_double;
    h["strlen"]             = h_strlen;
    h["strcmp"]             = h_strcmp;
    h["memchr"]             = h_memchr;
    h["abort"]              = h_abort;
    h["exit"]               = h_exit;
    h["_ZSt9terminatev"]    = h_terminate;
    h["__assert_fail"]      = h_assert_fail;
    h["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = h_glibcxx_assert;
    h["__cxa_pure_virtual"]                    = h_abort;
    h["__cxa_allocate_exception"]              = h_alloc_exc;
    h["__cxa_free_exception"]                  = h_free_exc;
    h["__cxa_throw"]                           = h_throw;
    h["__cxa_begin_catch"]                     = h_begin_catch;
    h["__cxa_end_catch"]                       = h_end_catch;
    h["__cxa_rethrow"]                         = h_rethrow;
    h["__cxa_get_exception_ptr"]               = h_get_exc_ptr;
    h["__cxa_guard_acquire"]                   = h_guard_acquire;
    h["__cxa_guard_release"]                   = h_guard_release;
    h["__cxa_guard_abort"]                     = h_ret0;
    h["__cxa_atexit"]                          = h_ret0;
    h["__cxa_thread_atexit"]                   = h_ret0;
    h["atexit"]                                = h_ret0;
    h["__dynamic_cast"]                        = h_dynamic_cast;
    h["vx_thread_enter"]  = h_thread_enter;
    h["vx_thread_leave"]  = h_thread_leave;
    h["vx_thread_joined"] = h_thread_joined;
    h["pthread_mutex_lock"] = h["pthread_mutex_trylock"] = h_mutex_lock;
    h["pthread_mutex_unlock"]                            = h_mutex_unlock;
    for (auto n : {"pthread_mutex_init", "pthread_mutex_destroy",
                   "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_rwlock_rdlock",
                   "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "puts", "putchar", "printf", "fprintf", "fwrite", "fflush", "fputs",
                   "fputc", "usleep", "sched_yield", "pthread_cond_signal", "pthread_cond_broadcast"})
        h[n] = h_ret0;
    h["_ZNSt6chrono3_V212steady_clock3nowEv"] = h_clock;
    h["_ZNSt6chrono3_V212system_clock3nowEv"] = h_clock;
    h["time"] = h["clock"] = h_clock;

    math1 = {{"sqrt", sqrt},   {"exp", exp},     {"log", log},       {"log2", log2}, {"log10", log10}, {"sin", sin},   {"cos", cos},
             {"tan", tan},     {"atan", atan},   {"asin", asin},     {"acos", acos}, {"sinh", sinh},   {"cosh", cosh}, {"tanh", tanh},
             {"floor", floor}, {"ceil", ceil},   {"trunc", trunc},   {"rint", rint}, {"round", round}, {"fabs", fabs}, {"cbrt", cbrt},
             {"exp2", exp2},   {"expm1", expm1}, {"log1p", log1p},   {"erf", erf},   {"nearbyint", nearbyint}, {"lgamma", lgamma}, {"tgamma", tgamma}};
    math2 = {{"pow", pow}, {"atan2", atan2}, {"hypot", hypot}, {"fmod", fmod}, {"fmin", fmin}, {"fmax", fmax}, {"copysign", copysign}, {"nextafter", nextafter}};
    for (auto& m : math1)
        h[m.first] = h[m.first + "f"] = h_math;
    for (auto& m : math2)
        h[m.first] = h[m.first + "f"] = h_math;
    for (auto n : {"lround", "llround", "lrint", "llrint"})
        h[n] = h_lround;
}
