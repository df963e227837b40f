// The gate library strings are genlib text; a small genlib reader evaluates their expressions on symbolic inputs.
#include "vx.h"
#include <fiction/technology/technology_mapping_library.hpp>
#include <cstring>
using namespace fiction;
namespace
{
struct expr_eval
{
    const char* p;
    bool        v[3];  // values of a, b, c
    bool        bad  = false;
    unsigned    used = 0;  // inputs that occur
    void        ws()
    {
        while (*p == ' ')
            ++p;
    }
    bool prim()
    {
        ws();
        if (*p == '!')
        {
            ++p;
            return !prim();
        }
        if (*p == '(')
        {
            ++p;
            const bool r = sum();
            ws();
            if (*p != ')')
                bad = true;
            else
                ++p;
            return r;
        }
        bool r = false;
        if (!std::strncmp(p, "CONST0", 6) || !std::strncmp(p, "CONST1", 6))
        {
            r = p[5] == '1';
            p += 6;
        }
        else if (*p >= 'a' && *p <= 'c')
        {
            r = v[*p - 'a'];
            used |= 1u << (*p - 'a');
            ++p;
        }
        else
            bad = true;
        ws();
        while (*p == '\'')
            r = !r, ++p, ws();
        return r;
    }
    // genlib operators: * and juxtaposition bind tighter than ^ (as in mockturtle's reader), which binds tighter than +
    bool product()
    {
        bool r = prim();
        for (ws(); !bad && *p == '*'; ws())
        {
            ++p;
            const bool s = prim();
            r            = r & s;
        }
        return r;
    }
    bool xorsum()
    {
        bool r = product();
        for (ws(); !bad && *p == '^'; ws())
        {
            ++p;
            const bool s = product();
            r            = r ^ s;
        }
        return r;
    }
    bool sum()
    {
        bool r = xorsum();
        for (ws(); !bad && *p == '+'; ws())
        {
            ++p;
            const bool s = xorsum();
            r            = r | s;
        }
        return r;
    }
};
// skips spaces, returns the length of the next word
int word(const char*& p)
{
    while (*p == ' ')
        ++p;
    int n = 0;
    while (p[n] && p[n] != ' ' && p[n] != '\n')
        ++n;
    return n;
}
bool number(const char*& p)
{
    const int n = word(p);
    bool      ok = n > 0;
    int       dots = 0;
    for (int i = 0; i < n; ++i)
        if (p[i] == '.')
            ++dots;
        else
            ok = ok && p[i] >= '0' && p[i] <= '9';
    p += n;
    return ok && dots <= 1;
}
bool lit(const char*& p, const char* w)
{
    const int n = word(p);
    const bool r = n == static_cast<int>(std::strlen(w)) && !std::strncmp(p, w, static_cast<std::size_t>(n));
    p += n;
    return r;
}
struct gate
{
    const char *name, *body;
    int         name_len;
    bool        pin;
};
// reads one well-formed line; p moves behind its newline
gate read(const char*& p)
{
    gate g{};
    vx_check(lit(p, "GATE"), "every line declares a gate");
    g.name_len = word(p);
    g.name     = p;
    vx_check(g.name_len > 0, "every gate has a name");
    p += g.name_len;
    vx_check(number(p), "every gate has an area");
    while (*p == ' ')
        ++p;
    vx_check(p[0] == 'O' && p[1] == '=', "every gate has one output");
    g.body = p += 2;
    while (*p && *p != ';' && *p != '\n')
        ++p;
    vx_check(*p == ';', "the expression is terminated");
    ++p;
    if (word(p))
    {
        g.pin = true;
        vx_check(lit(p, "PIN") && lit(p, "*"), "the pins are declared together");
        const char* ph = p;
        const bool  known = lit(p, "NONINV") || lit(p = ph, "INV") || lit(p = ph, "UNKNOWN");
        vx_check(known, "the pins have a phase");
        for (int i = 0; i < 6; ++i)
            vx_check(number(p), "the pins have six numbers");
    }
    vx_check(word(p) == 0 && *p == '\n', "the line ends after the gate");
    ++p;
    return g;
}
struct tt
{
    bool     v;
    unsigned used;
};
tt value(const gate& g, bool a, bool b, bool c)
{
    expr_eval  e{g.body, {a, b, c}};
    const bool r = e.sum();
    e.ws();
    vx_check(!e.bad && *e.p == ';', "the expression is well-formed");
    return {r, e.used};
}
unsigned table(const gate& g)
{
    unsigned t = 0;
    for (unsigned i = 0; i < 8; ++i)
        t |= static_cast<unsigned>(value(g, i & 1, i & 2, i & 4).v) << i;
    return t;
}
bool same(const char* x, int n, const char* y)
{
    return static_cast<int>(std::strlen(y)) == n && !std::strncmp(x, y, static_cast<std::size_t>(n));
}
template <typename F>
void single(const char* text, const char* name, unsigned used, F f)
{
    const bool  a = vx_bool("a"), b = vx_bool("b"), c = vx_bool("c");
    const char* p = text;
    const gate  g = read(p);
    vx_check(*p == 0, "one gate per constant");
    vx_check(same(g.name, g.name_len, name), "the gate has its name");
    const tt r = value(g, a, b, c);
    vx_check(r.v == f(a, b, c), "the gate computes its function for all inputs");
    vx_check(r.used == used, "the gate has its inputs");
    vx_check(g.pin == (used != 0), "gates with inputs declare pins");
}
// every gate of the decay list is the three-input gate with inputs tied to constants or to each other (up to the order of inputs)
void decays(const char* full, const char* list, int count)
{
    const char*    p  = full;
    const unsigned t3 = table(read(p));
    p                 = list;
    const char* names[8];
    int         lens[8], n = 0;
    const bool  a = vx_bool("a"), b = vx_bool("b"), c = vx_bool("c");
    while (*p)
    {
        const gate g = read(p);
        vx_check(n < 8, "few decays");
        for (int i = 0; i < n; ++i)
            vx_check(!(lens[i] == g.name_len && !std::strncmp(names[i], g.name, static_cast<std::size_t>(g.name_len))), "decay names are unique");
        names[n]  = g.name;
        lens[n++] = g.name_len;
        const tt r0 = value(g, a, b, c);
        vx_check(!(r0.used & 4), "decays have at most two inputs");
        // candidate bindings: every input of the full gate is 0, 1, a or b
        const bool vals[4] = {false, true, a, b};
        bool       found   = false;
        for (unsigned bind = 0; bind < 64 && !found; ++bind)
        {
            // the binding fits if it fits on the whole table of the decay
            bool fits = true;
            for (unsigned i = 0; i < 4; ++i)
            {
                const unsigned v[4] = {0, 1, i & 1, (i >> 1) & 1};
                const unsigned idx  = v[bind & 3] | v[(bind >> 2) & 3] << 1 | v[(bind >> 4) & 3] << 2;
                fits                = fits && value(g, i & 1, i & 2, false).v == static_cast<bool>((t3 >> idx) & 1);
            }
            if (fits)
            {
                found = true;
                const char* q  = full;
                const gate  gf = read(q);
                vx_check(value(gf, vals[bind & 3], vals[(bind >> 2) & 3], vals[(bind >> 4) & 3]).v == r0.v, "a decay is a restriction of its gate for all inputs");
            }
        }
        vx_check(found, "a decay is a restriction of its three-input gate");
    }
    vx_check(n == count, "all decays are listed");
}
}  // namespace
VX_ENTRY(tl_small)
{
    switch (vx_concretize(vx_range("gate", 0, 13)))
    {
        case 0: return single(GATE_ZERO, "zero", 0, [](bool, bool, bool) { return false; });
        case 1: return single(GATE_ONE, "one", 0, [](bool, bool, bool) { return true; });
        case 2: return single(GATE_BUF, "buf", 1, [](bool a, bool, bool) { return a; });
        case 3: return single(GATE_INV, "inv1", 1, [](bool a, bool, bool) { return !a; });
        case 4: return single(GATE_AND2, "and2", 3, [](bool a, bool b, bool) { return a && b; });
        case 5: return single(GATE_NAND2, "nand2", 3, [](bool a, bool b, bool) { return !(a && b); });
        case 6: return single(GATE_OR2, "or2", 3, [](bool a, bool b, bool) { return a || b; });
        case 7: return single(GATE_NOR2, "nor2", 3, [](bool a, bool b, bool) { return !(a || b); });
        case 8: return single(GATE_XOR2, "xor2", 3, [](bool a, bool b, bool) { return a != b; });
        case 9: return single(GATE_XNOR2, "xnor2", 3, [](bool a, bool b, bool) { return a == b; });
        case 10: return single(GATE_LT2, "lt2", 3, [](bool a, bool b, bool) { return a < b; });
        case 11: return single(GATE_GT2, "gt2", 3, [](bool a, bool b, bool) { return a > b; });
        case 12: return single(GATE_LE2, "le2", 3, [](bool a, bool b, bool) { return a <= b; });
        default: return single(GATE_GE2, "ge2", 3, [](bool a, bool b, bool) { return a >= b; });
    }
}
VX_ENTRY(tl_three)
{
    switch (vx_concretize(vx_range("gate", 0, 8)))
    {
        case 0: return single(GATE_AND3, "and3", 7, [](bool a, bool b, bool c) { return a && b && c; });
        case 1: return single(GATE_XOR_AND, "xor_and", 7, [](bool a, bool b, bool c) { return a && (b != c); });
        case 2: return single(GATE_OR_AND, "or_and", 7, [](bool a, bool b, bool c) { return a && (b || c); });
        case 3: return single(GATE_ONEHOT, "onehot", 7, [](bool a, bool b, bool c) { return a + b + c == 1; });
        case 4: return single(GATE_MAJ3, "maj3", 7, [](bool a, bool b, bool c) { return a + b + c >= 2; });
        case 5: return single(GATE_GAMBLE, "gamble", 7, [](bool a, bool b, bool c) { return a == b && b == c; });
        case 6: return single(GATE_DOT, "dot", 7, [](bool a, bool b, bool c) { return a != (c || (a && b)); });
        case 7: return single(GATE_MUX, "mux", 7, [](bool a, bool b, bool c) { return c ? b : a; });
        default: return single(GATE_AND_XOR, "and_xor", 7, [](bool a, bool b, bool c) { return a != (b && c); });
    }
}
VX_ENTRY(tl_decay)
{
    switch (vx_concretize(vx_range("gate", 0, 8)))
    {
        case 0: return decays(GATE_AND3, DECAY_AND3, 1);
        case 1: return decays(GATE_XOR_AND, DECAY_XOR_AND, 3);
        case 2: return decays(GATE_OR_AND, DECAY_OR_AND, 3);
        case 3: return decays(GATE_ONEHOT, DECAY_ONEHOT, 2);
        case 4: return decays(GATE_MAJ3, DECAY_MAJ3, 2);
        case 5: return decays(GATE_GAMBLE, DECAY_GAMBLE, 2);
        case 6: return decays(GATE_DOT, DECAY_DOT, 6);
        case 7: return decays(GATE_MUX, DECAY_MUX, 5);
        default: return decays(GATE_AND_XOR, DECAY_AND_XOR, 3);
    }
}
