# Property -> harness entries and bounds.  Read by check.py.


def E(harness, *names, **kw):
    return [dict(name=n, harness=harness, **kw) for n in names]


PROPS = {}

PROPS["C01"] = dict(
    entries=E("coords", "order_offset", "order_cube", "order_siqad", "pack", "text"),
    bounds="all 64-bit packed words, all coordinates over the full component ranges (31/31/1 bits, int32); text for x in [-30,120], y in [0,12]",
)
PROPS["C02"] = dict(
    entries=E("coords", "cube_arith", "siqad_arith", "siqad_convert", "offset_to_cube", "area_offset", "area_signed"),
    bounds="full component ranges; siqad addition/subtraction with |x|,|y| <= 2^29 (no overflow)",
)
PROPS["C03"] = dict(
    entries=E("coords", "step_offset", "step_cube", "step_siqad", "wrap_offset", "wrap_cube", "wrap_siqad", "walk_offset", "walk_cube", "walk_siqad"),
    bounds="single steps: boxes and positions up to 2^30 per dimension; whole walks: boxes up to 3x3x2 (thorough 5x5x2)",
)
PROPS["C04"] = dict(
    entries=E("iters", "ari_factors", "ari_copies", "ari_postfix"),
    bounds="face counts up to 100 (thorough 400), case split by the executor (the square root bound makes each count its own path); copies/postfix from any position up to 5 steps after n <= 9/13",
)
PROPS["C05"] = dict(
    entries=E("iters", "gray_step", "gray_code", "gray_jump"),
    bounds="all 64-bit numbers and 32-bit jumps",
)
PROPS["C06"] = dict(
    entries=E("utils", "abs64", "abs_small", "binomial_small", "binomial_wide", "round_int", "round_double", "chi", "cartesian", "distribute"),
    bounds="all integers (absolute value); all binomials with n <= 67, k in {0,1,n-1,n} for every n; products of up to 3 sets of up to 3 elements; n <= 7 positions",
)
PROPS["C07"] = dict(
    entries=E("utils", "first_two", "pqueue", "tolerance_map", "arrays", "hash_equal", "hash_sets", "hash_unordered", "hash_multiplicity", "hash_sums", "hash_sensitive"),
    bounds="sequences up to 4 (5) elements of arbitrary 32-bit values; hash inputs arbitrary 64-bit values; multiplicities and equal sums for values below 64",
)
PROPS["C08"] = dict(
    entries=E("sidb_small", "charge_sign", "charge_base", "charge_text"),
    bounds="all 8-bit signs, both bases; configurations of up to 4 (6) sites",
)
PROPS["C09"] = dict(
    entries=E("sidb_small", "defect_class", "defect_extent_override", "defect_equality"),
    bounds="all defect types, all 64-bit charges, all 16-bit spacing overrides; permittivity/screening compared on three values each",
)
PROPS["C10"] = dict(
    entries=E("sidb_small", "sim_params", "potential_distance", "potential_defaults", "lattice_constants"),
    bounds="both bases, 71 transition levels, 9 permittivities; potentials 0.01 V to 0.4 V, precision 0 and 1, 9 material parameter pairs",
)
PROPS["C11"] = dict(
    entries=E("sidb_small", "port_order", "port_text", "port_lists"),
    bounds="all 16-bit positions and flags; lists of up to 3 ports each side over 3 directions",
)
PROPS["C12"] = dict(
    entries=E("sidb_small", "tech_qca", "tech_mol", "tech_inml", "tech_sidb"),
    bounds="all 256 cell codes, all modes",
)

PROPS["C13"] = dict(
    entries=E("misc", "sa_run", "sa_accept_worse", "sa_clamp", "sa_heavy", "sa_double_cost", "sa_schedules", "sa_multi", "sa_race", stub=["exp"]) + E("anneal", "sa_metropolis"),
    bounds="up to 2 (3) temperature levels of up to 2 cycles, integer costs up to +-1000, 3 (4) instances in any completion order; acceptance probabilities are arbitrary; Metropolis' criterion at 5 temperatures for cost differences up to 12 (30) and any random number",
    assumptions=["std::exp returns an arbitrary double; std::random_device returns a fixed seed; threads run to completion at start or at join, and accesses of concurrent threads to the same memory are checked to be synchronised"],
)
PROPS["C14"] = dict(entries=E("misc", "csv"), bounds="lines of 0 to 5 fields: integers (3 digits), any character, booleans, strings up to length 3")
PROPS["C15"] = dict(entries=E("techlib", "tl_small", "tl_three", "tl_decay"), bounds="all gate and decay strings, all values of their three inputs")
COL = ["vendors/graph-coloring/Source/%s.cpp" % x for x in ("coloring_algorithm", "mcs", "dsatur", "lmxrlf", "tabucol", "hybrid_dsatur", "hybrid_lmxrlf")]
PROPS["C16"] = dict(
    entries=E("coloring", "col_mcs", "col_dsatur", "col_state", "col_rework", "col_lmxrlf", "col_tabucol", "col_contiguous", extra=COL),
    bounds="all graphs of up to 5 (6) vertices for MCS and DSATUR, up to 3 (4) in histories; LMXRLF without improvement rounds up to 3 (4) vertices, with one global and local round up to 2 vertices; Tabucol one iteration, up to 2 (3) vertices; every sequence of rand() choices",
    assumptions=["rand() returns arbitrary small values covering every remainder the code takes; the hybrid engines (documented as broken upstream) are outside"],
)
PROPS["C17"] = dict(
    entries=E("layouts", "cart_offset", "cart_cube", "cart_bounds", "cart_iterate", "cart_iterate_cube", "tiles"),
    bounds="all layouts up to 2^8 x 2^8 x 2 (2^14 x 2^14 x 2) and all positions in them; whole iterations up to 3x3x2 (4x4x2) with any start and stop",
)
PROPS["C18"] = dict(
    entries=E("layouts", "hex_or", "hex_er", "hex_oc", "hex_ec", "hex_shapes", "hex_cardinal_row", "hex_bounds", "hex_iterate", "shifted"),
    bounds="all layouts up to 2^8 x 2^8 x 2 (2^14 x 2^14 x 2) in the four arrangements and all positions in them; whole iterations up to 3x3x2 (4x4x2)",
)
PROPS["C19"] = dict(
    entries=E("clocking", "clk_tables", "clk_open", "clk_override", "clk_lookup", "clk_flow", "clk_hex_or", "clk_hex_er", "clk_hex_oc", "clk_hex_ec"),
    bounds="all named schemes, all zones up to 2^16 x 2^16 x 2 (2^30; hexagonal layouts 2^6, thorough 2^12), up to two overridden zones with any number",
)
PROPS["C20"] = dict(
    entries=E("clocking", "lyt_regular", "lyt_irregular", "lyt_clone", "se_layout"),
    bounds="all zones of 4x4x2 layouts with each named scheme; all assignments of clock numbers to 2x2 layouts; 3x3 layouts with up to two synchronization elements",
)
PROPS["C21"] = dict(
    entries=E("gatelyt", "gl_new") + E("gatelyt", "gl_edit", parts=8) + E("gatelyt", "gl_edges", "gl_layers", "gl_functions", "gl_clone", "gl_from_clocked"),
    bounds="sequences of 2 (3) operations from the empty layout and of 1 (2) on a five-node circuit, all tiles of an 8x8x2 layout; two crossing paths with any tile in either layer",
)
PROPS["C22"] = dict(
    entries=E("cells", "cl_qca", "cl_mol", "cl_inml", "cl_sidb", "cl_clone", "cl_clock", "bb_cells", "bb_siqad", "bb_cube", "bb_cleared", "bb_gates", "obs_plain", "obs_cells", "obs_gates"),
    bounds="sequences of 2 (3) assignments of any type, mode or name to any cell of an 8x8x2 layout and then any query; up to 2 (3) elements in bounding boxes; up to 2 (3) changes of obstructions",
)
PROPS["C23"] = dict(
    entries=E("tables", "tt_functions", "tt_multi", "tt_evaluate"),
    bounds="all functions and all inputs; evaluation of up to 8 (64) tables of up to 4 (8) inputs with four arbitrary words",
)
PROPS["C24"] = dict(
    entries=E("lutils", "sf_edit", "sf_clone", "sf_ignore", "sf_affected"),
    bounds="sequences of 2 (3) assignments and moves of defects on a 64x64 surface; extents of up to two defects on a 3x3 surface, own or default spacings",
)
PROPS["C25"] = dict(
    entries=E("lutils", "lu_siqad_u", "lu_siqad_c", "lu_fiction_u", "lu_normalize", "lu_spanned", "lu_absolute", "lu_ports", "lu_identical", "lu_digest"),
    bounds="layouts of up to 2 (3) cells at any position up to 99 (negative ones where allowed), areas up to 3x3 anywhere, all tiles up to 1000 (10^6), all positions inside them",
)
PROPS["C26"] = dict(
    entries=E("paths", "pf_grid", parts=9) + E("paths", "pf_all", "pf_cross", "pf_clocked", "pf_schemes", "pf_distances", "pf_squared", "pf_maps"),
    bounds="shortest paths between all tiles of a 3x3 grid with any blocked tiles and one blocked connection; all paths and k shortest ones on 2x3 (3x3) grids, on 3x2 grids with any clock numbers and on 4x3 grids with the named schemes; crossings of up to two wires on 4x3 2DDWave layouts with one blocked tile per layer and targets in both layers; all distances up to 1023 (65535), squared ones up to 15 (63)",
)
PROPS["C27"] = dict(
    entries=E("charge", "cds_physics", "cds_valid", "cds_external_symbolic", "cds_index", "cds_dependent", "cds_gray", "cds_edit", "cds_copies", "cds_defective", "cds_candidates", "cds_add"),
    bounds="up to 2 (3) dots among 6 positions with adjacent ones, all charges, two sets of material parameters, any mu in [-2, 1]; external potentials and defects from small sets, any external potential for pairs; charge indices of up to 4 (5) dots in both bases with any dependent dot; Gray codes of 3 (4) dots; 2 (3) editing operations; candidates for positive charges and additions among up to 3 (4) dots",
)
PROPS["C28"] = dict(
    entries=E("ground", "gs_exhaustive", "gs_quicksim", "gs_quicksim_none", "gs_search") + E("ground", "gs_quickexact", parts=12),
    bounds="up to 3 (4) dots among 6 positions, any mu in [-2, 1], both bases, with and without external potentials; distributions closer than 4e-6 eV to a stability threshold are not judged; QuickSim on up to 3 dots with up to 2 threads and steps, any random choices, both orders of threads; its search for up to 3 (4) dots of any charges and four values of alpha",
    assumptions=["random choices are arbitrary; threads run to completion at start or at join, and accesses of concurrent threads to the same memory are checked to be synchronised"],
)
PROPS["C29"] = dict(
    entries=E("evals", "ev_states", "ev_energies", "ev_compare", "ev_tts", "ev_occupation", "ev_occupation_levels", "ev_positive", "ev_stability", "ev_critical"),
    bounds="up to 3 (4) energy levels with any degeneracy; lists of up to 3 (4) distributions of 3 dots; positive charges of up to 3 (4) dots at any mu in [-2, 1]; stability at 9 values of mu; critical temperatures up to 2 (4) K for any confidence level, four layouts of two pairs",
)
PROPS["C30"] = dict(
    entries=E("gates", "bd_pairs", "bd_wires", "bd_objects", "bd_edit", "bd_inputs", "bd_match", "bd_types") + E("gates", "bd_operational", parts=8) + E("gates", "bd_filter", parts=6) + E("gates", "bd_temperature", parts=4),
    bounds="up to 6 (7) dots of any type; 1 to 2 straight wires of 2 to 3 (4) pairs in four directions; pairs at any positions in 32x32, edits of wires of up to 4 (5) pairs; 1 to 2 (3) input wires and 2 (3) moves of the iterator; all charges of a wire of 3 pairs, both input patterns and all functions of one input; operational status of four gates with one input at any mu in [-0.36, -0.12] ([-0.5, 0]); filtering of six gates with a canvas of one dot at any mu in [-0.33, -0.14] or two dots in [-0.26, -0.24] ([-0.4, -0.1] for both), all functions of one input; critical temperatures up to 120 K (300 K) of four gates at two (three) confidence levels",
)

PROPS["C31"] = dict(
    entries=E("nets", "nt_create", "nt_nary", "nt_function", "nt_po_signals", "nt_fanout", "nt_fanout_high", "nt_fanout_names", "nt_fanout_random", "nt_balance", "nt_balance_names", "nt_no_outputs", "nt_convert", "nt_virtual"),
    bounds="technology networks with 1 to 2 inputs, 2 to 3 gates of NOT, BUF, AND, LT, MAJ (thorough: also XOR, GE) in every arrangement, 1 to 2 (up to 5) outputs at any node, constants and duplicated fanins included, all input values; all functions of up to 3 variables; n-ary gates of up to 5 fanins; fanout degrees 2 to 4, thresholds 1 to 2, all strategies, all random choices; up to 2 virtual inputs in every position",
)
PROPS["C32"] = dict(
    entries=E("nets", "nt_utils", "nt_bfs", "nt_depth", "nt_rank"),
    bounds="technology networks with 1 to 2 inputs, 2 to 3 gates in every arrangement including unused ones, 1 to 2 outputs, duplicated fanins and constants; one gate added afterwards; all ranks and all exchanges of two nodes in a rank",
)

PROPS["C33"] = dict(
    entries=E("ortho", "or_two", "or_three", "or_four", "or_inputs", "or_const", "or_const_other", "or_duplicate"),
    bounds="networks with 1 to 3 inputs and up to 4 gates (NOT, BUF, AND, LT, GE, MAJ with one constant) in every arrangement with distinct fanins, 1 to 3 outputs at any node, 3 and 4 clock phases, all input values",
)

PROPS["C34"] = dict(
    entries=E("analyses", "an_rules", "an_rules_layers", "an_unplaced", "an_ortho", "an_paths", "an_counts"),
    bounds="up to 3 nodes (inputs, wires, inverters, conjunctions, outputs) at any tiles of 3 x 2 (3 x 3) and 2 x 2 x 2 (3 x 2 x 2) layouts with any connections, all rules together and one by one; layouts of all networks of up to 2 inputs and 3 gates; two joining paths of up to 9 (12) tiles, 3 and 4 phases; up to 2 (3) gates of 22 functions",
)

PROPS["C35"] = dict(
    entries=E("transform", "tf_hex", "tf_hex_three", "tf_hex_gates"),
    bounds="layouts of all networks with 1 to 3 inputs, 2 to 3 gates (NOT, AND, LT) and 1 to 2 (3) outputs, all modes of pin extension, all input values",
)

PROPS["C36"] = dict(
    entries=E("transform", "tf_wiring", "tf_wiring_three", "tf_optimize", "tf_optimize_gates", "tf_optimize_inputs"),
    bounds="layouts of all networks with 1 to 3 inputs, 2 to 3 gates (NOT, AND, LT) and 1 to 2 outputs, five parameter sets, all input values",
)

PROPS["C37"] = dict(
    entries=E("verify", "eq_networks", "eq_outputs", "eq_layouts", "eq_throughput", "eq_rules", "vm_virtual", "vm_outputs"),
    bounds="pairs of networks with 1 to 2 inputs, 1 to 2 gates (NOT, AND, LT) and 1 to 2 (3) outputs, as networks and as layouts, all input values; pairs of layouts with joining paths of up to 6 (9) tiles; three kinds of violations; up to 2 (3) virtual inputs in every position",
)

PROPS["C38"] = dict(
    entries=E("files", "fi_gate", "fi_cartesian", "fi_hexagonal", "fi_topologies", "fi_clocking", "fi_crossing", "fi_names", "fi_dots", "fi_dots_111", "fi_dots_offset", "fi_dots_lattice", "fi_defects", "fi_defects_offset"),
    bounds="FGL: one gate of every function of up to 3 inputs (all orders of its connections), networks of 2 (thorough 3) gates and 2 outputs placed orthogonally and hexagonalized, one wire on each of the 9 topologies, 15 clocking schemes on layouts up to 4x4 with up to 2 overridden tiles, crossing wires with clock numbers of their own, 8 names with special characters. SQD: up to 2 dots within 2x2 dimers and 4x2 (thorough 11x2) dimers of all types on both lattices in both coordinate systems, up to 2 defects of all 14 types, 3 charges, 3 sets of properties.",
    assumptions=["tinyxml2 is modelled by a parser of elements, attributes, texts and predefined entities", "dates and versions in files are constants"],
)
PROPS["C39"] = dict(
    entries=E("library", "gl_qca_gate", "gl_qca_cross", "gl_qca_unsupported", "gl_qca_network", "gl_mol_gate", "gl_blocks"),
    bounds="one QCA or molecular gate (wire, NOT, AND, OR, MAJ, fanouts of two and three) with its connections at every choice of sides in every clock zone, two crossing wires in all directions and on both layers, five unsupported gates; orthogonal layouts of all networks of up to 3 inputs, 2 (thorough 3) gates (NOT, AND, OR) and 2 outputs; all input values; all 3x3 blocks with symbolic cells",
    assumptions=["QCA cells settle zone after zone in the ground state of an Ising model with couplings 1 (neighbours, stacked vias), -0.2 (diagonal), 0.03 (distance two) and -0.005 (distance three); the molecular library is checked for ports, phases and constants only"],
)
PROPS["C40"] = dict(
    entries=E("gold", "gd_first", "gd_three", "gd_best", "gd_options", "gd_custom", "gd_refused") + E("gold", "gd_effort", max_steps=200_000_000),
    bounds="all networks with 1 to 3 inputs, 1 to 2 gates (NOT, LT; thorough AND too) and 1 to 2 outputs, all effort modes, all cost objectives (optimized in full for one gate, else the first layout found), planar layouts, straight inverters, tiles skipped between inputs, all input values; single-threaded",
    assumptions=["multithreaded search and timeouts are outside the bounds", "random seeds are fixed"],
)
PROPS["C41"] = dict(
    entries=E("clockfind", "dc_tree", "dc_hex", "dc_join", "dc_cross", "dc_empty"),
    bounds="all layouts of 4 wires, inputs and gates with up to two connections each on 2x2 Cartesian and hexagonal tiles (thorough 5 on 2x3), joining paths of up to 5 tiles, two crossing wires that may meet again, 3 and 4 clock phases, clock numbers unset and set before, every model that the SAT solver may return",
    assumptions=["SAT solvers are modelled by a complete search that may return any model"],
)
PROPS["C42"] = dict(
    entries=E("routing", "cr_color_heuristic", "cr_color_sat", "cr_route", "cr_route_three", "cr_route_heuristic", "cr_route_wires", "cr_reroute", extra=COL),
    bounds="graphs of up to 4 (thorough 5) vertices, all SAT search tactics, all known cliques, engines MCS, DSATUR and SAT; two inputs and two gates on every tile of 3x3 (thorough 4x3) layouts with 2DDWave and USE clocking, 2 to 3 connections, with and without crossings, partial routing and path limits; a wire in the way on 4x3 tiles; the connections of orthogonal layouts of up to 2 gates",
    assumptions=["SAT solvers are modelled by a complete search"],
)

PROPS["C43"] = dict(
    entries=E("opdomain", "od_grid", "od_random", "od_flood", "od_ratio", "od_contour", "od_contour_wide", "od_contour_two", "od_surface", "od_temperature", "od_invalid", "od_points", "od_physical", "od_real"),
    bounds="spaces of 1 to 3 parameters with up to 12 points in every shape of domain, and of 3 by 3 by 3 points with up to 3 (6) gaps; up to 2 (3) samples at any place, up to 2 (3) threads; six ranges whose steps fit or do not fit; critical temperatures of three values; all charges of 3 dots at 6 parameter points; one real gate at 4 points",
    assumptions=["whether a gate is operational at a point, and its critical temperature, are arbitrary but fixed (oracle instead of is_operational, except in od_real)", "random choices are arbitrary; threads run to completion at start or at join, and accesses of concurrent threads to the same memory are checked to be synchronised"],
)

PROPS["C44"] = dict(
    entries=E("qcafiles", "qf_cells", "qf_names", "qf_many", "qf_refused", "qf_defects"),
    bounds="up to two cells of all types, modes, clock numbers and positions on layouts up to 3x2x2; names of 6 kinds with spaces and quotes; 50 to 54 designated cells; files with one unexpected character, label or definition; defect matrices up to 3x2 (3x3) with any index at any position, complete or not",
    assumptions=["regular expressions and streams are modelled by plain implementations (native replays use the standard library's)"],
)

SECONDS = dict(C01=9, C02=6, C03=9, C04=3, C05=6, C06=16, C07=33, C08=4, C09=4, C10=4, C11=4, C12=5, C13=9, C14=3, C15=2, C16=29, C17=65, C18=51, C19=30, C20=40, C21=100, C22=14, C23=2, C24=13, C25=32, C26=100, C27=11, C28=55, C29=20, C30=75, C31=41, C32=21, C33=28, C34=55, C35=26, C36=45, C37=28, C38=45, C39=34, C40=60, C41=17, C42=80, C43=75, C44=42)
for _k, _v in SECONDS.items():
    PROPS[_k]["seconds"] = _v
