// Cell layouts written to files hold every cell; read back, they are as they were.
#include "vx.h"
#include <fiction/io/read_fqca_layout.hpp>
#include <fiction/io/read_sidb_surface_defects.hpp>
#include <fiction/io/write_fqca_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <sstream>
#include <string>
#include <vector>
using namespace fiction;
namespace
{
using UC    = cube::coord_t;
using CLK   = clocked_layout<cartesian_layout<UC>>;
using QCA   = cell_level_layout<qca_technology, CLK>;
using SIDB  = cell_level_layout<sidb_technology, CLK>;
using T     = qca_technology::cell_type;
using M     = qca_technology::cell_mode;
unsigned pick(const char* n, unsigned lo, unsigned hi)
{
    return static_cast<unsigned>(vx_concretize(vx_range(n, lo, hi)));
}
const char* NAMES[6] = {"", "a", "in0", "x y", "q\"r", " p[1] "};
template <typename Lyt>
Lyt read(const std::string& s)
{
    std::stringstream ss{s};
    return read_fqca_layout<Lyt>(ss, "lyt");
}
void compare(const QCA& a, const QCA& b, const bool vias)
{
    bool cells = true, clocks = true, names = true, modes = true;
    UC   far{};
    unsigned n = 0;
    for (int z = 0; z <= static_cast<int>(a.z()); ++z)
        for (int y = 0; y <= static_cast<int>(a.y()); ++y)
            for (int x = 0; x <= static_cast<int>(a.x()); ++x)
            {
                const UC c{x, y, z}, d{x, y, vias ? 2 * z : z}, v{x, y, 2 * z + 1};
                cells = cells && a.is_empty_cell(c) == b.is_empty_cell(d) && a.get_cell_type(c) == b.get_cell_type(d);
                if (!a.is_empty_cell(c))
                {
                    ++n;
                    const bool constant = qca_technology::is_constant_cell(a.get_cell_type(c)) && a.get_cell_name(c).empty();
                    clocks              = clocks && (constant || a.get_clock_number(c) == b.get_clock_number(d));
                    names               = names && a.get_cell_name(c) == b.get_cell_name(d);
                    modes               = modes && (!vias || (b.get_cell_mode(d) == (z == 0 ? M::NORMAL : M::CROSSOVER)));
                    far.x               = std::max<std::int32_t>(far.x, c.x);
                    far.y               = std::max<std::int32_t>(far.y, c.y);
                    far.z               = std::max<std::int32_t>(far.z, d.z);
                }
                if (vias && z < static_cast<int>(a.z()))
                {
                    const bool via = !a.is_empty_cell(c) && a.get_cell_mode(c) == M::VERTICAL;
                    cells          = cells && b.is_empty_cell(v) == !via;
                    if (via)
                    {
                        ++n;
                        modes  = modes && b.get_cell_mode(v) == M::VERTICAL && b.get_cell_type(v) == T::NORMAL;
                        clocks = clocks && a.get_clock_number(c) == b.get_clock_number(v);
                        far.z  = std::max<std::int32_t>(far.z, v.z);
                    }
                }
            }
    vx_check(cells, "cells keep their positions and types");
    vx_check(clocks, "cells keep their clock numbers");
    vx_check(names, "cells keep their names");
    vx_check(modes, "cells of the crossing layer and vias between layers have their modes");
    vx_check(b.num_cells() == n, "nothing else is read");
    vx_check(b.num_pis() == a.num_pis() && b.num_pos() == a.num_pos(), "inputs and outputs remain");
    vx_check(b.x() == far.x && b.y() == far.y && b.z() == far.z, "the layout extends to its last cells");
}
}  // namespace
VX_ENTRY(qf_cells)
{
    // any two cells of a small layout
    const int w = static_cast<int>(pick("w", 0, VX_B(1, 2))), h = static_cast<int>(pick("h", 0, 1)), z = static_cast<int>(pick("z", 0, 1));
    QCA       l{UC{w, h, z}, open_clocking<QCA>(num_clks::FOUR), "lyt"};
    const int k = static_cast<int>(pick("cells", 0, 2));
    static const T types[5] = {T::NORMAL, T::INPUT, T::OUTPUT, T::CONST_0, T::CONST_1};
    const char* cn[2] = {"cell0", "cell1"};
    const char* tn[2] = {"type0", "type1"};
    const char* kn[2] = {"clock0", "clock1"};
    for (int i = 0; i < k; ++i)
    {
        const int p = static_cast<int>(pick(cn[i], 0, static_cast<unsigned>((w + 1) * (h + 1) * (z + 1) - 1)));
        const UC  c{p % (w + 1), p / (w + 1) % (h + 1), p / ((w + 1) * (h + 1))};
        const auto t = types[i == 0 ? pick(tn[i], 0, 4) : 1 + pick(tn[i], 0, VX_B(0, 1))];
        l.assign_cell_type(c, t);
        l.assign_clock_number(c, static_cast<std::uint8_t>(i == 0 ? pick(kn[i], 0, 3) : 2));
        if (i == 0 && pick("vertical", 0, 1) != 0)
            l.assign_cell_mode(c, M::VERTICAL);
    }
    const bool                vias = pick("vias", 0, 1) != 0;
    write_fqca_layout_params  ps{};
    ps.create_inter_layer_via_cells = vias;
    std::stringstream ss{};
    write_fqca_layout(l, ss, ps);
    compare(l, read<QCA>(ss.str()), vias);
}
VX_ENTRY(qf_names)
{
    QCA l{UC{2, 0, 0}, twoddwave_clocking<QCA>(), "lyt"};
    const T types[3] = {T::NORMAL, T::INPUT, T::OUTPUT};
    const char* nn[2] = {"name0", "name1"};
    for (int i = 0; i < 2; ++i)
    {
        const UC c{2 * i, 0, 0};
        l.assign_cell_type(c, types[pick(i == 0 ? "type0" : "type1", 0, 2)]);
        if (const auto k = pick(nn[i], 0, 5); k != 0)
            l.assign_cell_name(c, NAMES[k]);
    }
    std::stringstream ss{};
    write_fqca_layout(l, ss);
    compare(l, read<QCA>(ss.str()), false);
}
VX_ENTRY(qf_many)
{
    // every cell with a name or direction needs a letter
    const int n = static_cast<int>(pick("cells", 50, 54));
    QCA       l{UC{8, 5, 0}, twoddwave_clocking<QCA>(), "lyt"};
    for (int i = 0; i < n; ++i)
        l.assign_cell_type(UC{i % 9, i / 9, 0}, i % 2 != 0 ? T::INPUT : T::OUTPUT);
    bool              thrown = false;
    std::stringstream ss{};
    try
    {
        write_fqca_layout(l, ss);
    }
    catch (const out_of_cell_names_exception&)
    {
        thrown = true;
    }
    vx_check(thrown == (n > 52), "layouts with more designated cells than letters are refused");
    if (!thrown)
        compare(l, read<QCA>(ss.str()), false);
}
VX_ENTRY(qf_refused)
{
    const char  ch[8]   = {'0', '3', ' ', '+', '*', '#', '~', '.'};
    const auto  k       = pick("char", 0, 7);
    const bool  defined = pick("defined", 0, 1) != 0;
    const auto  body    = pick("body", 0, 6);
    const char* B[7]    = {"- input", "- output", "- clock = 2", "-label=\"w\"", "- propagate", "- offset = (0.5,-1,0)", "- unknown"};
    const std::string s = std::string{"[ comment ]\n= = \n"} + ch[k] + " a \n= = \n\n$\n\n" + (defined ? "a" : "b") + ":\n" + B[body] + "\n\n";
    int  e = 0;
    char which = 0;
    std::uint64_t where = 0;
    QCA  l{};
    try
    {
        l = read<QCA>(s);
    }
    catch (const unsupported_character_exception& x) { e = 1; which = x.which(); }
    catch (const undefined_cell_label_exception& x) { e = 2; which = x.which(); }
    catch (const unrecognized_cell_definition_exception& x) { e = 3; where = x.where(); }
    vx_check(e == (k > 3 ? 1 : !defined ? 2 : body == 6 ? 3 : 0), "files with unknown characters, labels or definitions are refused");
    vx_check(e != 1 || which == ch[k], "the unknown character is told");
    vx_check(e != 2 || which == 'b', "the unknown label is told");
    vx_check(e != 3 || where == 9, "the line is told");
    if (e == 0)
    {
        const UC a{1, 0, 0};
        vx_check(l.get_cell_type(a) == (body == 0 ? T::INPUT : body == 1 ? T::OUTPUT : T::NORMAL) && l.get_cell_name(a) == (body == 3 ? "w" : "") && l.get_clock_number(a) == (body == 2 ? 2 : 0), "definitions apply to their cells");
        vx_check(l.is_empty_cell(UC{0, 0, 0}) == (ch[k] == ' ') && (ch[k] != '+' || l.get_cell_type(UC{0, 0, 0}) == T::CONST_1) && (k > 1 || l.get_clock_number(UC{0, 0, 0}) == ch[k] - '0'), "characters stand for their cells");
    }
}
VX_ENTRY(qf_defects)
{
    // matrices of defects
    const unsigned w = pick("w", 1, 3), h = pick("h", 0, VX_B(2, 3));
    unsigned       v[9];
    std::string    s = "defects: [";
    const char*    sep[3] = {" ", "  ", "\n"};
    const auto     gap = pick("gap", 0, 2), missing = pick("missing", 0, 2), at = pick("at", 0, 8);
    const auto     special = pick("special", 0, 12);
    for (unsigned y = 0; y < h; ++y)
    {
        s += y == 0 ? "[" : ",\n[";
        for (unsigned x = 0; x < w; ++x)
        {
            v[y * w + x] = y * w + x == at ? special : (y * w + x) % 11;
            if (!(missing != 0 && y + 1 == h && h > 1 && x + 1 == w && w > 1))
                s += (x != 0 ? sep[gap] : "") + std::to_string(v[y * w + x]);
        }
        s += missing == 2 ? " ]" : "]";
    }
    s += "]";
    vx_assume(missing < 2);
    int  e = 0;
    int  which = 0;
    unsigned where = 0;
    sidb_defect_surface<SIDB> l{};
    try
    {
        std::stringstream ss{s};
        l = read_sidb_surface_defects<SIDB>(ss, "surface");
    }
    catch (const unsupported_defect_index_exception& x) { e = 1; which = x.which(); }
    catch (const missing_sidb_position_exception& x) { e = 2; where = x.where(); }
    const bool lack = missing != 0 && h > 1 && w > 1, bad = at < w * h && special > 10 && !(lack && at + 1 == w * h);
    vx_check(e == (bad && !(lack && at / w + 1 == h) ? 1 : lack ? 2 : bad ? 1 : 0), "incomplete matrices and unknown defects are refused");
    vx_check(e != 1 || which == static_cast<int>(special), "the unknown index is told");
    vx_check(e != 2 || where == h - 1, "the incomplete row is told");
    if (e != 0)
        return;
    static const sidb_defect_type D[11] = {sidb_defect_type::NONE, sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::ONE_BY_ONE, sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI, sidb_defect_type::ETCH_PIT, sidb_defect_type::MISSING_DIMER};
    bool     ok = true;
    unsigned n  = 0;
    for (unsigned y = 0; y < h; ++y)
        for (unsigned x = 0; x < w; ++x)
        {
            const auto d = l.get_sidb_defect(UC{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y)});
            ok           = ok && d.type == D[v[y * w + x]] && d.charge == 0;
            n += v[y * w + x] != 0;
        }
    vx_check(ok && l.num_defects() == n, "every number of the matrix becomes the defect it stands for at its position");
    vx_check(h == 0 || (l.x() == w - 1 && l.y() == h - 1), "the surface extends to the last position");
}
