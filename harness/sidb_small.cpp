// SiDB charge states, defects, simulation parameters, potential-to-distance conversion; cell ports; cell technologies.
#include "vx.h"

#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/constants.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>

#include <fmt/format.h>
#include <cmath>
#include <cstring>
#include <functional>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace fiction;

// ------------------------------------------------------------------ charge states
VX_ENTRY(charge_sign)
{
    const auto s  = vx_i8("sign");
    const auto cs = sign_to_charge_state(s);
    vx_check((cs == sidb_charge_state::NEGATIVE) == (s == -1), "sign -1 is the negative state");
    vx_check((cs == sidb_charge_state::NEUTRAL) == (s == 0), "sign 0 is the neutral state");
    vx_check((cs == sidb_charge_state::POSITIVE) == (s == 1), "sign +1 is the positive state");
    vx_check((cs == sidb_charge_state::NONE) == (s != -1 && s != 0 && s != 1), "any other sign is no state");
    vx_check(charge_state_to_sign(cs) == ((s == -1 || s == 1) ? s : 0), "sign of the state");
    // the other direction: arbitrary enumerator
    const auto k = vx_range("state", 0, 3);
    const auto t = k == 0 ? sidb_charge_state::NEGATIVE : k == 1 ? sidb_charge_state::NEUTRAL : k == 2 ? sidb_charge_state::POSITIVE : sidb_charge_state::NONE;
    const auto g = charge_state_to_sign(t);
    vx_check(k == 3 || static_cast<int8_t>(t) == g, "the value of a state is its sign");
    vx_check(g == (k == 0 ? -1 : k == 2 ? 1 : 0), "sign of an arbitrary state");
    if (k != 3)
        vx_check(sign_to_charge_state(g) == t, "state -> sign -> state round trip");
    vx_observe(static_cast<uint64_t>(static_cast<int64_t>(g)));
}
VX_ENTRY(charge_base)
{
    const auto b  = vx_range("base", 2, 3);
    const auto st = sidb_charge_states_for_base_number(static_cast<uint8_t>(b));
    vx_check(st.size() == b, "base b has b charge states");
    bool neg = false, neu = false, pos = false;
    for (const auto c : st)
    {
        neg = neg | (c == sidb_charge_state::NEGATIVE);
        neu = neu | (c == sidb_charge_state::NEUTRAL);
        pos = pos | (c == sidb_charge_state::POSITIVE);
    }
    vx_check(neg && neu && pos == (b == 3), "two states: negative and neutral; three states: also positive");
}
VX_ENTRY(charge_text)
{
    static const char* const     sn[] = {"s0", "s1", "s2", "s3", "s4", "s5"};
    const auto                     n = vx_concretize(vx_range("n", 0, VX_B(4, 6)));
    std::vector<sidb_charge_state> v{};
    std::string                    ref{};
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto k = vx_concretize(vx_range(sn[i], 0, 3));
        v.push_back(k == 0 ? sidb_charge_state::NEGATIVE : k == 1 ? sidb_charge_state::NEUTRAL : k == 2 ? sidb_charge_state::POSITIVE : sidb_charge_state::NONE);
        if (k < 3)
            ref.push_back(k == 0 ? '-' : k == 1 ? '0' : '+');
    }
    const auto s = charge_configuration_to_string(v);
    vx_check(s == ref, "one character per charged site, in order");
    vx_observe(s.size());
}
// ------------------------------------------------------------------ defects
namespace
{
sidb_defect in_defect(const char* t, const char* c)
{
    const auto tv = vx_range(t, 0, static_cast<uint64_t>(sidb_defect_type::UNKNOWN));
    const auto cv = vx_i64(c);
    return sidb_defect{static_cast<sidb_defect_type>(tv), cv, 5.6, 5.0};
}
}  // namespace
VX_ENTRY(defect_class)
{
    const auto d   = in_defect("type", "charge");
    const auto ty  = d.type;
    const bool typ = ty == sidb_defect_type::DB || ty == sidb_defect_type::SI_VACANCY || ty == sidb_defect_type::ARSENIC;
    vx_check(is_charged_defect_type(d) == (typ || d.charge != 0), "dangling bonds, vacancies, arsenic and anything carrying a charge count as charged defects");
    vx_check(is_neutral_defect_type(d) == (!typ && d.charge == 0 && ty != sidb_defect_type::NONE), "every other defect counts as neutral");
    vx_check(!(is_charged_defect_type(d) && is_neutral_defect_type(d)), "no defect is charged and neutral");
    vx_check(is_positively_charged_defect(d) == (d.charge > 0), "positive charge");
    vx_check(is_negatively_charged_defect(d) == (d.charge < 0), "negative charge");
    vx_check(is_neutrally_charged_defect(d) == (d.charge == 0), "zero charge");
    const auto e = defect_extent(d);
    if (is_charged_defect_type(d))
        vx_check(e.first == 26 && e.second == 13, "charged defects: 26 x 13 spacing");
    else if (is_neutral_defect_type(d))
        vx_check(e.first == 1 && e.second == 0, "neutral defects: 1 x 0 spacing");
    else
        vx_check(e.first == 0 && e.second == 0, "no defect: no spacing");
    vx_observe(e.first);
    vx_observe(static_cast<uint64_t>(is_neutral_defect_type(d)));
}
VX_ENTRY(defect_extent_override)
{
    const auto d  = in_defect("type", "charge");
    const auto hc = vx_u16("hc");
    const auto vc = vx_u16("vc");
    const auto hn = vx_u16("hn");
    const auto vn = vx_u16("vn");
    const bool oc = vx_bool("override_charged");
    const bool on = vx_bool("override_neutral");
    std::optional<std::pair<uint16_t, uint16_t>> c{}, n{};
    if (oc)
        c = std::make_pair(hc, vc);
    if (on)
        n = std::make_pair(hn, vn);
    const auto e = defect_extent(d, c, n);
    if (is_charged_defect_type(d))
        vx_check(oc ? (e.first == hc && e.second == vc) : (e.first == 26 && e.second == 13), "charged spacing can be overridden");
    else if (is_neutral_defect_type(d))
        vx_check(on ? (e.first == hn && e.second == vn) : (e.first == 1 && e.second == 0), "neutral spacing can be overridden");
    else
        vx_check(e.first == 0 && e.second == 0, "overrides do not give extent to a missing defect");
}
VX_ENTRY(defect_equality)
{
    const auto a = in_defect("ta", "ca");
    auto       b = in_defect("tb", "cb");
    const auto f = vx_concretize(vx_range("eps", 0, 2));
    const auto l = vx_concretize(vx_range("lam", 0, 2));
    b.epsilon_r  = f == 0 ? 5.6 : f == 1 ? 5.7 : 0.0;
    b.lambda_tf  = l == 0 ? 5.0 : l == 1 ? 4.9 : 0.0;
    const bool same = a.type == b.type && a.charge == b.charge && f == 0 && l == 0;
    vx_check((a == b) == same && (a != b) == !same, "defects are equal iff type, charge, permittivity and screening length are");
    if (same)
    {
        sidb_defect c{};
        c.lambda_tf = b.lambda_tf;
        c.epsilon_r = b.epsilon_r;
        c.charge    = b.charge;
        c.type      = b.type;
        vx_check(std::hash<sidb_defect>{}(c) == std::hash<sidb_defect>{}(b), "equal defects have equal hashes");
    }
    const sidb_defect dflt{};
    vx_check(dflt.type == sidb_defect_type::UNKNOWN && dflt.charge == 0 && dflt.epsilon_r == 0.0 && dflt.lambda_tf == 0.0, "a default defect is of unknown type and uncharged");
}
// ------------------------------------------------------------------ simulation parameters
VX_ENTRY(sim_params)
{
    const auto   b   = vx_range("base", 2, 3);
    const double mu  = -0.01 * static_cast<double>(static_cast<int64_t>(vx_concretize(static_cast<uint64_t>(vx_irange("mu", -60, 10)))));
    const double eps = 0.1 * static_cast<double>(vx_concretize(vx_range("eps", 1, 9)));
    const double lam = 0.5;
    const sidb_simulation_parameters p{static_cast<uint8_t>(b), mu, eps, lam};
    vx_check(p.base == b && p.mu_minus == mu && p.epsilon_r == eps && p.lambda_tf == lam, "parameters are stored where they belong");
    vx_check(p.k() == 8.987552 * 1E9 / eps, "the Coulomb prefactor is k_e over the relative permittivity");
    vx_check(p.mu_plus() == mu - 0.59, "the (+/0) transition level lies 0.59 eV below the (0/-) level");
    const sidb_simulation_parameters d{};
    vx_check(d.base == 3 && d.mu_minus == -0.32 && d.epsilon_r == 5.6 && d.lambda_tf == 5.0, "documented defaults");
}
VX_ENTRY(lattice_constants)
{
    static_assert(sidb_100_lattice::LAT_A == 3.84 && sidb_100_lattice::LAT_B == 7.68);
    vx_check(sidb_100_lattice::LAT_C.first == 0 && sidb_100_lattice::LAT_C.second == 2.25, "100 lattice: dimer offset");
    vx_check(sidb_111_lattice::LAT_A == 6.65 && sidb_111_lattice::LAT_B == 3.84 && sidb_111_lattice::LAT_C.first == 3.3255 && sidb_111_lattice::LAT_C.second == 1.92, "111 lattice constants");
}
// the conversion returns the first multiple of the step whose potential does not exceed the given one
VX_ENTRY(potential_distance)
{
    const auto   prec = vx_concretize(vx_range("precision", 0, 1));
    const auto   num  = vx_concretize(vx_range("num", 1, 40));
    const double pot  = static_cast<double>(num) / VX_B(100.0, 200.0);
    const auto   e    = vx_concretize(vx_range("eps", 1, 3));
    const auto   l    = vx_concretize(vx_range("lam", 1, 3));
    const sidb_simulation_parameters p{3, -0.32, 1.9 * static_cast<double>(e), 1.7 * static_cast<double>(l)};
    const double d    = potential_to_distance_conversion(pot, p, prec);
    const double step = prec == 0 ? 1.0 : 0.1;
    vx_check(d > 0, "distances are positive");
    const auto   phys = [&](const double r) { return 8.987552e9 / p.epsilon_r / (r * 1e-9) * std::exp(-r / p.lambda_tf) * 1.6021766e-19; };
    vx_check(phys(d) <= pot * (1 + 1e-9), "at the returned distance the potential has dropped to the given value");
    vx_check(d < 1.5 * step || phys(d - step) > pot * (1 - 1e-9), "one step closer it has not");
    const double q = d / step;
    vx_check(std::abs(q - std::round(q)) < 1e-6, "the distance is a multiple of the precision");
}
VX_ENTRY(potential_defaults)
{
    const auto                       num = vx_concretize(vx_range("num", 0, VX_B(8, 30)));
    const double                     pot = 0.02 + static_cast<double>(num) / 80.0;
    const sidb_simulation_parameters p{2, -0.25, 4.1, 1.8};
    vx_check(potential_to_distance_conversion(pot, p) == potential_to_distance_conversion(pot, p, 2), "by default, distances have two decimals");
    vx_check(potential_to_distance_conversion(pot) == potential_to_distance_conversion(pot, sidb_simulation_parameters{}, 2), "by default, default parameters are taken");
}
// ------------------------------------------------------------------ ports
VX_ENTRY(port_order)
{
    const auto ax = vx_u16("ax");
    const auto ay = vx_u16("ay");
    const auto bx = vx_u16("bx");
    const auto by = vx_u16("by");
    const bool api = vx_bool("api");
    const bool apo = vx_bool("apo");
    const bool bpi = vx_bool("bpi");
    const bool bpo = vx_bool("bpo");
    const port_position a{ax, ay, api, apo}, b{bx, by, bpi, bpo};
    vx_check(a.x == ax && a.y == ay && a.pi == api && a.po == apo, "a port keeps its position and its flags");
    vx_check((a == b) == (ax == bx && ay == by), "ports are equal iff they are at the same position");
    vx_check((a < b) == (ax < bx || (ax == bx && ay < by)), "ports are ordered by column, then row");
    if (a == b)
        vx_check(std::hash<port_position>{}(a) == std::hash<port_position>{}(b), "equal ports have equal hashes");
    const auto d1 = vx_range("d1", 0, 8);
    const auto d2 = vx_range("d2", 0, 8);
    const port_direction p{static_cast<port_direction::cardinal>(d1), api, apo}, q{static_cast<port_direction::cardinal>(d2), bpi, bpo};
    vx_check((p == q) == (d1 == d2) && (p < q) == (d1 < d2), "directions are compared by their cardinal value");
    vx_check(p.dir == d1 && p.pi == api && p.po == apo, "a direction keeps its value and its flags");
    if (d1 == d2)
        vx_check(std::hash<port_direction>{}(p) == std::hash<port_direction>{}(q), "equal directions have equal hashes");
    const port_position  c{ax, ay}, z{};
    const port_direction e{static_cast<port_direction::cardinal>(d1)};
    vx_check(!c.pi && !c.po && !e.pi && !e.po && !z.pi && !z.po && z.x == 0 && z.y == 0, "ports are no pins by default");
    vx_observe(static_cast<uint64_t>(a < b));
}
VX_ENTRY(port_text)
{
    static const char* const names[] = {"N", "NE", "E", "SE", "S", "SW", "W", "NW"};
    static const port_direction::cardinal values[] = {port_direction::NORTH, port_direction::NORTH_EAST, port_direction::EAST, port_direction::SOUTH_EAST, port_direction::SOUTH, port_direction::SOUTH_WEST, port_direction::WEST, port_direction::NORTH_WEST};
    const auto d = vx_concretize(vx_range("d", 0, 7)), f = vx_concretize(vx_range("f", 0, 7));
    const port_direction a{values[d], vx_bool("pi"), vx_bool("po")}, b{values[f]};
    vx_check(fmt::format("{}", a) == names[d], "directions are written by their initials");
    vx_check((a == b) == (d == f), "directions are distinct");
    const auto x = vx_concretize(vx_range("x", 0, 12)), y = vx_concretize(vx_range("y", 0, 12));
    vx_check(fmt::format("{}", port_position{static_cast<uint16_t>(x), static_cast<uint16_t>(y)}) == "(" + std::to_string(x) + "," + std::to_string(y) + ")", "positions are written as coordinates");
}
VX_ENTRY(port_lists)
{
    static const char* const names[] = {"p0", "p1", "p2", "p3", "p4", "p5"};
    std::vector<port_direction> ps{};
    std::vector<uint64_t>       dv{};
    for (auto* n : names)
    {
        const auto d = vx_range(n, 0, 2);
        dv.push_back(d);
        ps.emplace_back(static_cast<port_direction::cardinal>(d));
    }
    port_list<port_direction> a{{ps[0], ps[1]}, {ps[2]}}, b{{ps[3]}, {ps[4], ps[5]}};
    const auto sa = std::set<uint64_t>{dv[0], dv[1]}, sb = std::set<uint64_t>{dv[3]}, oa = std::set<uint64_t>{dv[2]}, ob = std::set<uint64_t>{dv[4], dv[5]};
    vx_check((a == b) == (sa == sb && oa == ob), "port lists are equal iff inputs and outputs are");
    if (a == b)
        vx_check(std::hash<port_list<port_direction>>{}(a) == std::hash<port_list<port_direction>>{}(b), "equal port lists have equal hashes");
    auto ua = sa, uo = oa;
    ua.insert(sb.begin(), sb.end());
    uo.insert(ob.begin(), ob.end());
    a += b;
    bool ok = a.inp.size() == ua.size() && a.out.size() == uo.size();
    for (const auto& p : a.inp)
        ok = ok && ua.count(p.dir) == 1;
    for (const auto& p : a.out)
        ok = ok && uo.count(p.dir) == 1;
    vx_check(ok, "merging port lists unites inputs with inputs and outputs with outputs");
}
// ------------------------------------------------------------------ cell technologies
template <typename T, typename = void>
struct has_logic : std::false_type
{};
template <typename T>
struct has_logic<T, std::void_t<decltype(T::cell_type::LOGIC)>> : std::true_type
{};
namespace
{
template <typename T>
void mark_consistency()
{
    vx_check(static_cast<uint8_t>(T::cell_mark::EMPTY) == static_cast<uint8_t>(T::cell_type::EMPTY) && static_cast<uint8_t>(T::cell_mark::INPUT) == static_cast<uint8_t>(T::cell_type::INPUT) &&
                 static_cast<uint8_t>(T::cell_mark::OUTPUT) == static_cast<uint8_t>(T::cell_type::OUTPUT),
             "cell marks agree with cell types");
}
}  // namespace
VX_ENTRY(tech_qca)
{
    using T       = qca_technology;
    const auto  v = vx_u8("cell");
    const auto  c = static_cast<T::cell_type>(v);
    vx_check(T::is_empty_cell(c) == (v == ' '), "empty");
    vx_check(T::is_normal_cell(c) == (v == 'x'), "normal");
    vx_check(T::is_input_cell(c) == (v == 'i'), "input");
    vx_check(T::is_output_cell(c) == (v == 'o'), "output");
    vx_check(T::is_const_0_cell(c) == (v == '0') && T::is_const_1_cell(c) == (v == '1'), "constants");
    vx_check(T::is_constant_cell(c) == (v == '0' || v == '1'), "constant cells");
    const auto m  = static_cast<T::cell_mode>(vx_range("mode", 0, 3));
    const int  k  = T::is_normal_cell_mode(m) + T::is_rotated_cell_mode(m) + T::is_vertical_cell_mode(m) + T::is_crossover_cell_mode(m);
    vx_check(k == 1, "exactly one cell mode");
    vx_check(T::is_normal_cell_mode(m) == (m == T::cell_mode::NORMAL) && T::is_rotated_cell_mode(m) == (m == T::cell_mode::ROTATED) && T::is_vertical_cell_mode(m) == (m == T::cell_mode::VERTICAL) &&
                 T::is_crossover_cell_mode(m) == (m == T::cell_mode::CROSSOVER),
             "cell modes");
    mark_consistency<T>();
}
VX_ENTRY(tech_mol)
{
    using T       = mol_qca_technology;
    const auto  v = vx_u8("cell");
    const auto  c = static_cast<T::cell_type>(v);
    vx_check(T::is_empty_cell(c) == (v == ' '), "empty");
    vx_check(T::is_normal_cell1(c) == (v == 'a') && T::is_normal_cell2(c) == (v == 'b') && T::is_normal_cell3(c) == (v == 'c') && T::is_normal_cell4(c) == (v == 'd'), "normal cells of each phase");
    vx_check(T::is_normal_cell(c) == (v >= 'a' && v <= 'd'), "normal");
    vx_check(T::cell_clock_number(c) == ((v >= 'a' && v <= 'd') ? static_cast<uint64_t>(v - 'a') : 0), "normal cells carry their clock phase");
    vx_check(T::is_input_cell(c) == (v == 'i'), "input");
    vx_check(T::is_output_cell(c) == (v == 'o'), "output");
    vx_check(T::is_const_0_cell(c) == (v == '0') && T::is_const_1_cell(c) == (v == '1'), "constants");
    vx_check(T::is_constant_cell(c) == (v == '0' || v == '1'), "constant cells");
    const auto m  = static_cast<T::cell_mode>(vx_range("mode", 0, 3));
    vx_check(T::is_normal_cell_mode(m) == (m == T::cell_mode::NORMAL) && T::is_rotated_cell_mode(m) == (m == T::cell_mode::ROTATED) && T::is_vertical_cell_mode(m) == (m == T::cell_mode::VERTICAL) &&
                 T::is_crossover_cell_mode(m) == (m == T::cell_mode::CROSSOVER),
             "cell modes");
    mark_consistency<T>();
}
VX_ENTRY(tech_inml)
{
    using T       = inml_technology;
    const auto  v = vx_u8("cell");
    const auto  c = static_cast<T::cell_type>(v);
    vx_check(T::is_empty_cell(c) == (v == ' '), "empty");
    vx_check(T::is_normal_cell(c) == (v == 'x'), "normal");
    vx_check(T::is_input_cell(c) == (v == 'i'), "input");
    vx_check(T::is_output_cell(c) == (v == 'o'), "output");
    vx_check(T::is_slanted_edge_up_magnet(c) == (v == 'u') && T::is_slanted_edge_down_magnet(c) == (v == 'd') && T::is_slanted_edge_magnet(c) == (v == 'u' || v == 'd'), "slanted-edge magnets");
    vx_check(T::is_inverter_magnet(c) == (v == 'n') && T::is_crosswire_magnet(c) == (v == 'c') && T::is_fanout_coupler_magnet(c) == (v == 'f'), "special magnets");
    vx_check(T::is_normal_cell_mode({}), "magnets have only the normal mode");
    mark_consistency<T>();
}
VX_ENTRY(tech_sidb)
{
    using T       = sidb_technology;
    const auto  v = vx_u8("cell");
    const auto  c = static_cast<T::cell_type>(v);
    vx_check(T::is_empty_cell(c) == (v == ' '), "empty");
    vx_check(T::is_normal_cell(c) == (v == 'x'), "normal");
    vx_check(T::is_input_cell(c) == (v == 'i'), "input");
    vx_check(T::is_output_cell(c) == (v == 'o'), "output");
    vx_check(T::is_logic_cell(c) == (v == 'l'), "logic");
    vx_check(T::is_normal_cell_mode({}), "SiDBs have only the normal mode");
    mark_consistency<T>();
    static_assert(static_cast<uint8_t>(T::cell_mark::LOGIC) == static_cast<uint8_t>(T::cell_type::LOGIC));
}
