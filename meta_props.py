NOT_APPLICABLE = {}

prop("C01", "Coordinates: total order, equality, hashing, packing and text agree",
     "For each coordinate type (offset, cube, SiQAD) the comparison operators form one strict total order in the documented lexicographic sense, equality coincides with equal positions and dead flags, and equal coordinates hash equally. "
     "Packing an offset coordinate into its 64-bit word and unpacking it loses no field, dead coordinates included, and the textual form shows the position.",
     ["inputs"], "all 64-bit words and all coordinates of the three systems over their full component ranges",
     "The tests compare a handful of small literals; a wrong bit width, mask or comparison branch only shows on boundary or dead values among 2^64.",
     [I + "layouts/coordinates.hpp"], [("operator==, <, <=, hash, uint64_t conversion, str", I + "layouts/coordinates.hpp")])
prop("C02", "Coordinate arithmetic and conversions between systems lose nothing",
     "Adding and subtracting cube and SiQAD coordinates is component arithmetic on columns and (dot) rows and the two operations undo each other. Conversions between offset, cube and SiQAD coordinates are element-wise, keep dead coordinates dead and round-trip; area and volume count the positions of the box.",
     ["inputs"], "all coordinates of each system within the stated ranges",
     "The tests use about ten coordinates; sign handling and carry between the two dot rows of SiQAD coordinates depend on the parity and sign of all operands.",
     [I + "layouts/coordinates.hpp"], [("operator+/-, to_siqad_coord, to_fiction_coord, area, volume", I + "layouts/coordinates.hpp")])
prop("C03", "Coordinate iteration visits every position of a box exactly once, in order",
     "Iterating a box from any start position yields the positions of that box in enumeration order, each exactly once, and then a dead end position; the successor of a position always lies in the box or is the end. Wrapping a coordinate that overflows one dimension carries into the next and leaves contained coordinates alone.",
     ["inputs"], "all box sizes and start positions within the stated bounds",
     "Tests iterate two or three fixed boxes; degenerate boxes (one column, one row, no second dot layer, no crossing layer) take other branches.",
     [I + "layouts/coordinates.hpp"], [("coord_iterator::operator++, wrap", I + "layouts/coordinates.hpp")])
prop("C04", "Aspect-ratio enumeration yields every factorisation once, also via copies",
     "For every number of faces the iterator produces flat aspect ratios with exactly that many faces, every factorisation in both orientations exactly once, then proceeds to the next face count. Copies and post-incremented values are independent iterators that continue with the same sequence, and comparisons follow the position.",
     ["inputs", "histories"], "all face counts up to the bound, any prefix of increments, copies, assignments",
     "The tests check four face counts and never use a copy after its original moved.",
     [I + "utils/math_utils.hpp"][0:] + [I + "algorithms/iter/aspect_ratio_iterator.hpp"], [("next, operator++", I + "algorithms/iter/aspect_ratio_iterator.hpp")])
prop("C05", "Gray code iteration: a bijection whose successive codes differ in one bit",
     "For every number the iterator yields its reflected Gray code, which determines the number; one increment or decrement flips exactly one bit. Jumps, differences, subscripts, assignments and comparisons agree with arithmetic on the positions.",
     ["inputs"], "all 64-bit positions, all 32-bit jumps",
     "The tests walk the first 16 codes.",
     [I + "algorithms/iter/gray_code_iterator.hpp"], [("operator++, --, +=, binary_to_gray", I + "algorithms/iter/gray_code_iterator.hpp")])
prop("C06", "Numeric utilities compute exactly what they document",
     "Absolute value, binomial coefficient, rounding to decimal places, Cartesian products and the distribution of entities over positions return exactly the mathematically defined result whenever that result is representable.",
     ["inputs"], "all integers / all n <= 67 for binomials / all doubles on a decimal grid / all small set families within bounds",
     "Tests check single values; overflow of intermediate products, minimal integers and empty inputs are not sampled.",
     [I + "utils/math_utils.hpp"], [("integral_abs, binomial_coefficient, round_to_n_decimal_places, cartesian_combinations, cost_function_chi, determine_all_combinations_of_distributing_k_entities_on_n_positions", I + "utils/math_utils.hpp")])
prop("C07", "Container helpers and hashing respect their value semantics",
     "Finding a subsequence, the searchable priority queue, the tolerance-based map lookup and array creation behave as their abstract containers for all contents. Hashing is a function of the abstract value: equal pairs, arrays and sets hash equally, sets regardless of insertion order, and different operands change the combined hash.",
     ["inputs", "histories"], "all element values and all orders of operations within the size bounds",
     "Tests use one or two fixed sequences; boundary positions (first, last, empty) and insertion orders are what breaks.",
     [I + "utils/stl_utils.hpp", I + "utils/hash.hpp", I + "utils/array_utils.hpp"], [("find_first_two_of, searchable_priority_queue, find_key_with_tolerance, create_array, hash_combine, std::hash<std::array>, std::hash<std::set>", I + "utils")])
prop("C08", "SiDB charge states: sign, text and number encodings round-trip",
     "Every charge state converts to its sign and back, a numbering base lists exactly its states, and a configuration prints exactly one symbol per assigned site, in order.",
     ["inputs"], "all charge states, all configurations up to the stated length, both bases",
     "Tests convert a few fixed configurations.",
     [I + "technology/sidb_charge_state.hpp"], [("charge_state_to_sign, sign_to_charge_state, sidb_charge_states_for_base_number, charge_configuration_to_string", I + "technology/sidb_charge_state.hpp")])
prop("C09", "SiDB defects: classification, spacing and equality are consistent",
     "Every defect type is either charged or neutral according to its charge, its required horizontal and vertical spacing is the documented extent of its class or the given override, and defects are equal exactly when all their attributes are.",
     ["inputs"], "all defect types, charges and overrides",
     "Tests check a few types with default attributes.",
     [I + "technology/sidb_defects.hpp"], [("is_charged_defect_type, is_positively_charged_defect, defect_extent, operator==", I + "technology/sidb_defects.hpp")])
prop("C10", "SiDB physical parameters and potential/distance conversion are consistent",
     "Simulation parameters keep what they are given and derive the positive transition level and the Coulomb constant from them; the distance returned for a potential is the smallest one on the requested decimal grid at which the screened potential has fallen to it, and grows as the potential falls.",
     ["inputs"], "all listed parameter values, both bases",
     "Tests check one parameter set.",
     [I + "technology/sidb_lattice_orientations.hpp", I + "algorithms/simulation/sidb/sidb_simulation_parameters.hpp", I + "algorithms/simulation/sidb/potential_to_distance_conversion.hpp"],
     [("sidb_simulation_parameters, potential_to_distance_conversion", I + "algorithms/simulation/sidb")])
prop("C11", "Port positions, directions and port lists are value types",
     "Port positions and port directions are equal, ordered and hashed by their position or direction, consistently with each other; adding two port lists unites inputs with inputs and outputs with outputs, without loss or duplication.",
     ["inputs"], "all positions and flags; all lists up to the bound",
     "Tests do not compare ports differing in one attribute only.",
     [I + "technology/cell_ports.hpp"], [("port_position, port_direction, port_list::operator+=", I + "technology/cell_ports.hpp")])
prop("C12", "Cell technologies classify every cell code and mode unambiguously",
     "For each cell technology, exactly the documented cell codes count as empty, normal, input, output, constant or special magnets, and exactly one cell mode predicate holds for each mode; cell marks agree with cell types.",
     ["inputs"], "all 256 codes, all modes",
     "There are four fixed test values per technology.",
     [I + "technology/cell_technologies.hpp"], [("qca_technology, mol_qca_technology, inml_technology, sidb_technology", I + "technology/cell_technologies.hpp")])
prop("C13", "Simulated annealing returns the best visited state, sequentially and in parallel",
     "Simulated annealing follows the schedule between the clamped temperatures, performs the given cycles per level, always accepts candidates that are not worse and returns the cheapest state it visited together with its cost. The parallel variant returns the best result over all its instances in any completion order, without data races.",
     ["inputs", "schedules"], "all costs within bounds, all acceptance decisions, all completion orders of the instances",
     "Tests minimise two fixed functions with random seeds; acceptance decisions, ties, schedules that overshoot and concurrent instances are not controlled.",
     [I + "algorithms/optimization/simulated_annealing.hpp"], [("simulated_annealing, multi_simulated_annealing, schedules", I + "algorithms/optimization/simulated_annealing.hpp")],
     note="std::exp is an arbitrary value; random seeds are fixed; races are found by locksets over the accesses of concurrent threads and confirmed with ThreadSanitizer.")
prop("C14", "CSV lines carry every field, in order, separated by commas",
     "Every call writes one line that consists of the textual form of all its arguments in order, separated by single commas, whatever their types and values.",
     ["inputs"], "all values of the field types within the bounds",
     "The tests write a few fixed lines.",
     [I + "io/csv_writer.hpp"], [("csv_writer::write_line", I + "io/csv_writer.hpp")])
prop("C15", "The technology mapping library describes exactly the named gate functions",
     "Every genlib string is a well-formed gate whose expression computes the function its name stands for on all inputs and uses exactly its inputs. Every decay gate of a three-input gate is obtained from it by fixing or identifying inputs.",
     ["inputs"], "all gate strings, all input values",
     "No test reads the gate expressions; a wrong operator only shows as a functionally different mapped network.",
     [I + "technology/technology_mapping_library.hpp"], [("GATE_*, DECAY_*", I + "technology/technology_mapping_library.hpp")])
prop("C16", "Graph colouring engines return proper colourings of the current graph",
     "A colouring returned by MCS, DSATUR, LMXRLF or Tabucol gives every vertex of the current graph one of a contiguous set of colours different from its neighbours', also after the graph was changed. MCS is optimal on chordal graphs, DSATUR on bipartite ones, Tabucol respects its colour limit or returns nothing; the state queries report what the colouring is.",
     ["inputs", "histories"], "all graphs within the bounds, all random choices, graphs changed before or after colouring",
     "fiction's tests only colour a few edge intersection graphs; the property quantifies over all graphs and random choices.",
     ["vendors/graph-coloring/" + x for x in ("Header/coloring_algorithm.hpp", "Source/coloring_algorithm.cpp", "Source/mcs.cpp", "Source/dsatur.cpp", "Source/lmxrlf.cpp", "Source/tabucol.cpp")],
     [("Mcs::color, Dsatur::color, Lmxrlf::color, Tabucol::color, is_valid, set_graph", "vendors/graph-coloring")])
prop("C17", "Cartesian layouts: neighbourhood, directions, borders and iteration agree",
     "In a Cartesian layout every position inside the aspect ratio has exactly the neighbours one step north, east, south and west that lie inside it; the direction, adjacency, border and layer queries all describe this same grid. "
     "Iteration visits each position (of a layer, or of a given part) exactly once in order, and clones and resizing do not affect other layouts.",
     ["inputs"], "all layout sizes and positions within the bounds, all partial iterations",
     "Tests look at one 10x10 layout; borders, degenerate layouts and positions outside take separate branches.",
     [I + "layouts/cartesian_layout.hpp", I + "layouts/tile_based_layout.hpp"], [("north..below, is_*_of, adjacent_*, foreach_*", I + "layouts/cartesian_layout.hpp")])
prop("C18", "Hexagonal and shifted layouts: cube coordinates, sides and adjacency agree",
     "In each of the four hexagonal arrangements the conversion to cube coordinates is a bijection, two positions are adjacent exactly when their cube distance is one, and the six side queries reach all neighbours, each once, with opposite sides undoing each other. "
     "The rows or columns that the arrangement names are the shifted ones, and shifted Cartesian layouts have the same adjacency.",
     ["inputs"], "all layout sizes and positions within the bounds, all four arrangements",
     "Tests check literal neighbours of a few positions; the parity of row and column and the borders select between many branches.",
     [I + "layouts/hexagonal_layout.hpp", I + "layouts/shifted_cartesian_layout.hpp"], [("to_cube_coordinate, to_offset_coordinate, north_east.., adjacent_*", I + "layouts/hexagonal_layout.hpp")])
prop("C19", "Clocking schemes assign the published numbers and keep information flowing",
     "Each named scheme, found regardless of case and under no other name, assigns every zone the published clock number below its number of phases; no zone is a dead end or without source and degrees stay within limits. "
     "Linear schemes only send information forward, so that they are free of cycles, also on hexagonal layouts. Overriding a zone changes exactly this zone and makes the scheme irregular.",
     ["inputs", "histories"], "all schemes, all zones within the bounds, all overriding numbers",
     "Tests compare some zones of each scheme; a wrong cutout entry or modulus shows in specific zones only.",
     [I + "layouts/clocking_scheme.hpp"], [("*_clocking, override_clock_number, get_clocking_scheme, is_linear_scheme", I + "layouts/clocking_scheme.hpp")])
prop("C20", "Clocked layouts: zone queries agree with clock numbers, clones are independent",
     "A zone is incoming for another exactly when its clock number is the cyclic predecessor (or either is a synchronization element); the lists and degrees of a zone are its neighbours with that relation. "
     "Assigned clock numbers and synchronization elements are read back for their zone alone, and changing a clone never changes its original.",
     ["inputs", "histories"], "all zones and assigned numbers within the bounds, changes before and after cloning",
     "Tests assign a few numbers and never change a clone.",
     [I + "layouts/clocked_layout.hpp", I + "layouts/synchronization_element_layout.hpp"], [("is_incoming_clocked, incoming_clocked_zones, in_degree, assign_clock_number, clone", I + "layouts/clocked_layout.hpp")])
prop("C21", "Gate-level layouts stay consistent under every editing sequence",
     "After any sequence of placing, moving, connecting, rewiring and clearing, a gate-level layout holds exactly the nodes placed and not cleared, at their tiles, with their functions, names, connections, PIs, POs and counts of gates, wires and crossings. "
     "The fanins and fanouts reported are exactly the connections between adjacent, suitably clocked tiles. Each create function computes the function its name stands for, and clones are independent.",
     ["inputs", "histories"], "all editing sequences up to the bound on all tiles of the layout",
     "Tests build a few layouts in one fixed order; wrong bookkeeping shows after particular combinations of replacing, moving and clearing.",
     [I + "layouts/gate_level_layout.hpp"], [("create_*, place, move_node, connect, clear_tile, foreach_*, num_*, clone", I + "layouts/gate_level_layout.hpp")])
prop("C22", "Cell-level layouts, bounding boxes and obstructions reflect every assignment",
     "After any sequence of assigning cell types, modes and names, queries, counts and iterations of a cell-level layout show exactly the last assignments; cells take the clock number of their tile, and clones are independent. "
     "Bounding boxes are the smallest boxes around all cells, gates and defects, and exactly the occupied and obstructed positions and connections are obstructed.",
     ["inputs", "histories"], "all sequences of assignments up to the bound, in all cell technologies",
     "Tests assign a few cells in one order; stale input lists, modes or boxes show after overwriting and clearing.",
     [I + "layouts/cell_level_layout.hpp", I + "layouts/bounding_box.hpp", I + "layouts/obstruction_layout.hpp"],
     [("assign_cell_type, foreach_*, get_clock_number, clone", I + "layouts/cell_level_layout.hpp"), ("bounding_box_2d::update_bounding_box", I + "layouts/bounding_box.hpp"), ("is_obstructed_*", I + "layouts/obstruction_layout.hpp")])
prop("C23", "Truth tables of named functions are those functions",
     "Every create_*_tt function returns the table of the function it is named after over its number of inputs, and multi-output evaluation returns the value of table k in bit k.",
     ["inputs"], "all functions, all inputs",
     "The tables serve as specifications for gate designers and simulators; tests compare literals with literals.",
     [I + "utils/truth_table_utils.hpp"], [("create_*_tt, evaluate_output", I + "utils/truth_table_utils.hpp")],
     note="Comparisons follow the library's convention that the first operand is the most significant table index; kitty's tables are modelled.")
prop("C24", "Defect surfaces record every defect and its extent",
     "After any sequence of assigning and moving defects, each position reports the last defect put there, counts by charge and iterations agree, and clones are independent; ignored types are never recorded. "
     "The positions affected by a defect are exactly those on the surface within its horizontal and vertical extent.",
     ["inputs", "histories"], "all sequences up to the bound, all positions",
     "Tests place a few defects apart from each other; overwriting, borders and mixed charges take other branches.",
     [I + "technology/sidb_defect_surface.hpp"], [("assign_sidb_defect, move_sidb_defect, affected_sidbs, clone", I + "technology/sidb_defect_surface.hpp")])
prop("C25", "Layout helpers map cells between tiles and coordinate systems faithfully",
     "Converting a cell-level layout between SiQAD and fiction coordinates, or normalizing it, keeps every cell with its type, mode and name at the corresponding position, and conversions are inverse to each other. "
     "Cells of a tile are placed at the tile's origin in every arrangement, areas list all their positions once, ports point to the neighbour they name, and layouts compare and digest by their contents.",
     ["inputs"], "all positions within the bounds, all arrangements",
     "Tests convert a few cells at even rows and positive positions.",
     [I + "utils/layout_utils.hpp"], [("convert_layout_to_*, normalize_layout_coordinates, relative_to_absolute_cell_position, all_coordinates_in_spanned_area, are_cell_layouts_identical", I + "utils/layout_utils.hpp")])
prop("C26", "Path finding returns shortest paths and all paths, and only paths",
     "Shortest-path search finds a path exactly when there is one over free tiles, unobstructed connections and suitably clocked zones, and it is a shortest one; distances agree with it. "
     "Path enumeration returns every simple path once, and the k shortest paths are the k shortest of these in order; searching leaves the layout unchanged. "
     "Distance functions, maps and caches return the distances they are named after.",
     ["inputs"], "all obstructions, sources and targets within the bounds, all clock zone assignments",
     "Tests search a few layouts with hand-picked walls; wrong closed lists or stale obstructions show only on particular mazes.",
     [I + "algorithms/path_finding/a_star.hpp", I + "algorithms/path_finding/enumerate_all_paths.hpp", I + "algorithms/path_finding/k_shortest_paths.hpp", I + "algorithms/path_finding/distance.hpp", I + "algorithms/path_finding/distance_map.hpp"],
     [("a_star, a_star_distance", I + "algorithms/path_finding/a_star.hpp"), ("enumerate_all_paths", I + "algorithms/path_finding/enumerate_all_paths.hpp"), ("yen_k_shortest_paths", I + "algorithms/path_finding/k_shortest_paths.hpp"), ("*_distance", I + "algorithms/path_finding/distance.hpp"), ("distance_map_functor, smart_distance_cache_functor", I + "algorithms/path_finding/distance_map.hpp")],
     note="Shortest paths are claimed on Cartesian layouts, where the default Manhattan heuristic is admissible.")
prop("C27", "Charge distribution surfaces agree with the electrostatic model",
     "For every assignment of charges, external potentials and defects, distances, potentials, energies and physical validity (population and configuration stability) of a charge distribution surface are those the screened-Coulomb model defines. "
     "They remain so after every change, and copies are independent. "
     "Charge indices and charge distributions determine each other in both bases, and iterating indices or Gray codes visits every distribution once.",
     ["inputs", "histories"], "all charges, chemical potentials and positions within the bounds, all editing sequences up to the bound",
     "Tests look at a few layouts with one set of parameters; incremental updates go wrong only after certain sequences.",
     [I + "technology/charge_distribution_surface.hpp"], [("update_after_charge_change, validity_check, assign_charge_index, increase_charge_index_by_one, assign_local_external_potential, add_sidb_defect_to_potential_landscape", I + "technology/charge_distribution_surface.hpp")],
     note="Comparisons within the library's error margin of a threshold are not judged.")
prop("C28", "Ground state simulation finds the physically valid charge distributions",
     "Exhaustive search and QuickExact return every physically valid charge distribution of a layout, each once and no other, with its energy, in both bases and under external potentials. "
     "QuickSim returns only physically valid distributions, whatever its random choices and the order of its threads, and its threads share no unsynchronised state. Ground states are those of least energy.",
     ["inputs", "schedules"], "all chemical potentials, layouts within the bounds, random choices and orders of threads",
     "Tests compare the number of results for a few layouts at two chemical potentials; missing a state near a threshold remains unseen.",
     [I + "algorithms/simulation/sidb/quickexact.hpp", I + "algorithms/simulation/sidb/quicksim.hpp", I + "algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp", I + "technology/charge_distribution_surface.hpp"],
     [("quickexact", I + "algorithms/simulation/sidb/quickexact.hpp"), ("quicksim", I + "algorithms/simulation/sidb/quicksim.hpp"), ("exhaustive_ground_state_simulation", I + "algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp"), ("groundstates", I + "algorithms/simulation/sidb/sidb_simulation_result.hpp")])
prop("C29", "Evaluations of SiDB simulation results follow from the charge distributions",
     "Energy distributions, minimum energies, comparisons of results with the exact one, time-to-solution statistics, Boltzmann occupation probabilities and population stability are those the given charge distributions imply. "
     "When positive charges are reported impossible, no physically valid distribution has one. "
     "The critical temperature is the least one at which excited states are occupied with more than the tolerated probability.",
     ["inputs"], "all degeneracies, lists of distributions, chemical potentials and confidence levels within the bounds",
     "Tests evaluate a handful of simulated layouts; degenerate levels and boundaries of the thresholds hardly occur there.",
     [I + "algorithms/simulation/sidb/energy_distribution.hpp", I + "algorithms/simulation/sidb/minimum_energy.hpp", I + "algorithms/simulation/sidb/is_ground_state.hpp", I + "algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp", I + "algorithms/simulation/sidb/time_to_solution.hpp", I + "algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp", I + "algorithms/simulation/sidb/can_positive_charges_occur.hpp", I + "algorithms/simulation/sidb/critical_temperature.hpp", I + "algorithms/simulation/sidb/physical_population_stability.hpp"],
     [("energy_distribution", I + "algorithms/simulation/sidb/energy_distribution.hpp"), ("time_to_solution", I + "algorithms/simulation/sidb/time_to_solution.hpp"), ("critical_temperature_non_gate_based", I + "algorithms/simulation/sidb/critical_temperature.hpp")],
     note="Population stability regards a transition to negative charge only when it is closer than the one to positive charge; which of the two is reported is not judged.")
prop("C30", "SiDB gates are operational exactly when their ground states encode the function",
     "BDL pairs and wires, with their ends and directions, are detected as they are laid out, and each input pattern leaves exactly the perturbers that encode it. "
     "A gate is reported operational for a Boolean function if and only if for every input pattern positive charges are impossible and all ground states encode the output and, on demand, contain no kinks; operational input patterns are those for which this holds. "
     "States of a simulation are accepted or rejected on the same grounds, and filtering keeps exactly the layouts where the intended wire values are feasible and no other ones have lower energy, so that it rejects no gate that is operational without kinks; the critical temperature of a gate is the least at which, for some input, wrong states exceed the tolerated occupation.",
     ["inputs", "histories"], "all layouts, charge distributions, functions and chemical potentials within the bounds, all moves of iterators",
     "Tests check published gates at two chemical potentials; they cannot show agreement with the ground states between and around them.",
     [I + "algorithms/simulation/sidb/is_operational.hpp", I + "algorithms/simulation/sidb/detect_bdl_pairs.hpp", I + "algorithms/simulation/sidb/detect_bdl_wires.hpp", I + "algorithms/iter/bdl_input_iterator.hpp", I + "algorithms/simulation/sidb/verify_logic_match.hpp", I + "algorithms/simulation/sidb/calculate_energy_and_state_type.hpp", I + "algorithms/simulation/sidb/critical_temperature.hpp"],
     [("critical_temperature_gate_based", I + "algorithms/simulation/sidb/critical_temperature.hpp"), ("is_operational (simulated, filtered, with given wires or input layouts), operational_input_patterns, kink_induced_non_operational_input_patterns", I + "algorithms/simulation/sidb/is_operational.hpp"), ("bdl_input_iterator", I + "algorithms/iter/bdl_input_iterator.hpp"), ("detect_bdl_wires", I + "algorithms/simulation/sidb/detect_bdl_wires.hpp")],
     note="All input wires of a layout have the same length and direction. Filtering and simulation are compared where the remaining dots of the inputs are negative in the ground states.")

prop("C31", "Networks and their transformations compute the functions they stand for",
     "Every gate-creation operation of a technology network yields a node that computes and is recognised as the named function; nodes, fanins, fanouts and clones agree with what was created. "
     "Fanout substitution, balancing, conversion and the removal of virtual inputs keep the function, inputs, outputs and names of every network, "
     "and their results meet the stated form: at most the given fanout, equal path lengths, no virtual inputs.",
     ["inputs"], "all networks within the bounds, all input values, all random choices",
     "Tests transform a handful of networks; duplicated fanins, unused gates and outputs at inputs take other branches.",
     [I + "networks/technology_network.hpp", I + "networks/virtual_pi_network.hpp", I + "algorithms/network_transformation/fanout_substitution.hpp", I + "algorithms/network_transformation/network_balancing.hpp", I + "algorithms/network_transformation/network_conversion.hpp", I + "algorithms/network_transformation/delete_virtual_pis.hpp"],
     [("create_*, is_*, substitute_po_signals", I + "networks/technology_network.hpp"), ("fanout_substitution", I + "algorithms/network_transformation/fanout_substitution.hpp"), ("network_balancing", I + "algorithms/network_transformation/network_balancing.hpp"), ("delete_virtual_pis", I + "algorithms/network_transformation/delete_virtual_pis.hpp")],
     note="Simulation semantics: fanin i is bit i of the index of a truth table; mockturtle's network base classes are modelled.")
prop("C32", "Network views and utilities describe the network as it is",
     "Breadth-first topological views list every node once and after its fanins, in reverse views before them; levels are longest distances from the inputs, ranks hold exactly the nodes of a level and stay consistent when nodes are swapped, reordered or added. "
     "Fanins, constant fanins, outgoing edges, incoming inputs, output levels and inverse levels are those of the network.",
     ["inputs", "histories"], "all networks within the bounds",
     "Tests list the nodes of one or two networks without duplicated fanins or unused gates.",
     [I + "networks/views/bfs_topo_view.hpp", I + "networks/views/static_depth_view.hpp", I + "networks/views/mutable_rank_view.hpp", I + "utils/network_utils.hpp"],
     [("bfs_topo_view", I + "networks/views/bfs_topo_view.hpp"), ("static_depth_view", I + "networks/views/static_depth_view.hpp"), ("mutable_rank_view", I + "networks/views/mutable_rank_view.hpp"), ("fanins, inverse_levels, foreach_outgoing_edge", I + "utils/network_utils.hpp")])
prop("C33", "Orthogonal physical design yields valid layouts of the given function",
     "For every network of gates with at most two non-constant fanins the generated layout is clocked by 2DDWave, all its tiles are connected in the order of clocking, wires cross only wires, and inputs and outputs lie at the borders under their names. "
     "It computes the function of the network at every output; networks with larger gates are rejected, and statistics describe the layout.",
     ["inputs"], "all networks within the bounds, all input values",
     "Tests check equivalence for a few networks of symmetric gates; exchanged fanins or colliding wires depend on the arrangement of gates.",
     [I + "algorithms/physical_design/orthogonal.hpp", I + "utils/placement_utils.hpp"],
     [("orthogonal, east_south_edge_coloring, connect_and_place", I + "algorithms/physical_design/orthogonal.hpp"), ("place, reserve_input_nodes, place_outputs, fanin_container", I + "utils/placement_utils.hpp")],
     note="Gates other than majority with a constant fanin and gates with the same fanin twice are recorded as known findings.")
prop("C34", "Design rule checks, path analyses and gate counts describe what is there",
     "The design rule checker counts every connection between non-adjacent tiles, missing connection, wire above no wire, data flow against the clocking, unplaced node and lack of inputs or outputs, each rule on its own and all together, warns of pins inside the layout and names the tiles at fault. "
     "The critical path is the longest way from an input to an output, the throughput of two joining paths follows from their difference in clock cycles; gates are counted under their functions.",
     ["inputs"], "all layouts and networks within the bounds",
     "Tests check a few layouts, most without violations; a rule that misses one case stays silent.",
     [I + "algorithms/verification/design_rule_violations.hpp", I + "algorithms/properties/critical_path_length_and_throughput.hpp", I + "algorithms/properties/count_gate_types.hpp"],
     [("gate_level_drvs", I + "algorithms/verification/design_rule_violations.hpp"), ("critical_path_length_and_throughput", I + "algorithms/properties/critical_path_length_and_throughput.hpp"), ("count_gate_types", I + "algorithms/properties/count_gate_types.hpp")],
     note="Nested differences of paths are not accumulated by the code and are not claimed.")
prop("C35", "Hexagonalization keeps function, names and validity of layouts",
     "Every 2DDWave-clocked Cartesian layout is mapped to a row-clocked hexagonal layout with the same gates that computes the same function under the same input and output names, in which every signal runs between adjacent tiles of successive clock zones and wires cross only wires. "
     "Extended pins lie at the top and bottom borders; only planar extension may fail, and statistics describe the layout.",
     ["inputs"], "all layouts within the bounds, all modes, all input values",
     "Tests map a few layouts of symmetric gates, mostly without extended pins.",
     [I + "algorithms/physical_design/hexagonalization.hpp"],
     [("hexagonalization, to_hex, route_inputs, route_outputs", I + "algorithms/physical_design/hexagonalization.hpp")])
prop("C36", "Wiring reduction and post-layout optimization keep layouts correct",
     "Wiring reduction and post-layout optimization keep the function, gates, names, clocking and structural validity of every 2DDWave layout, with inputs and outputs at its borders, for all optimization parameters. "
     "The result is never larger than before, and statistics describe the layouts before and after.",
     ["inputs"], "all layouts within the bounds, all parameter sets, all input values",
     "Tests optimize a few layouts of symmetric gates; fanin order and crossings depend on the order of moves.",
     [I + "algorithms/physical_design/wiring_reduction.hpp", I + "algorithms/physical_design/post_layout_optimization.hpp", I + "layouts/obstruction_layout.hpp"],
     [("wiring_reduction", I + "algorithms/physical_design/wiring_reduction.hpp"), ("post_layout_optimization, improve_gate_location, optimize_output_positions", I + "algorithms/physical_design/post_layout_optimization.hpp")])
prop("C37", "Equivalence checking and virtual miters decide equality of functions",
     "Equivalence is denied exactly if networks or layouts differ in their function, inputs or outputs, or violate design rules; a counterexample then distinguishes the functions and violations are attributed to the layout at fault. "
     "Layouts of full throughput are strongly equivalent, those of different throughput weakly, and throughputs are stated. "
     "A virtual miter exists for networks of the same real inputs and outputs and is true exactly where they differ.",
     ["inputs"], "all pairs of networks and layouts within the bounds, all input values",
     "Tests compare a few pairs; counterexamples, the roles of specification and implementation, and virtual inputs at other positions are not sampled.",
     [I + "algorithms/verification/equivalence_checking.hpp", I + "algorithms/verification/virtual_miter.hpp"],
     [("equivalence_checking_impl::run", I + "algorithms/verification/equivalence_checking.hpp"), ("virtual_miter", I + "algorithms/verification/virtual_miter.hpp")],
     note="mockturtle's miter and SAT solver are modelled. The verdict on two layouts of equal reduced throughput is documented ambiguously and not claimed.")
prop("C38", "Layouts written to FGL and SQD files are read back unchanged",
     "A gate-level layout written to an FGL file and read back has the same size, topology, clocking, gates with their functions and connections in order, and the same names; a file of another topology is refused. "
     "An SiDB layout written to an SQD file and read back has the same dots with their types on the same lattice and the same defects; a file of another lattice is refused.",
     ["inputs"], "all layouts within the bounds, of all topologies, clocking schemes, gate types, dot types and defect types",
     "Tests read back a few layouts and files; rare gate types, clockings, defect types and names are left out.",
     [I + "io/write_fgl_layout.hpp", I + "io/read_fgl_layout.hpp", I + "io/write_sqd_layout.hpp", I + "io/read_sqd_layout.hpp"],
     [("write_fgl_layout", I + "io/write_fgl_layout.hpp"), ("read_fgl_layout", I + "io/read_fgl_layout.hpp"), ("write_sqd_layout", I + "io/write_sqd_layout.hpp"), ("read_sqd_layout", I + "io/read_sqd_layout.hpp")],
     note="The XML parser is modelled. Gates that reach no output are not written and not claimed.")
prop("C39", "Gate libraries turn gates into cells that compute their function",
     "The QCA cell layout obtained from a gate-level layout with QCA ONE has the same inputs, outputs, names and clocking and, simulated zone after zone, computes the same function, whatever sides the connections of a gate lie at and whichever wires cross. "
     "Molecular gates take signals in at their input sides in the first phase and let them out at their output sides in the last. "
     "Gates a library lacks are refused with their tile; blocks of cells are rotated, merged and marked correctly.",
     ["inputs"], "all gates, port directions and layouts within the bounds, all input values",
     "Tests compare a few gates with stored pictures; most port combinations of a gate are never placed.",
     [I + "algorithms/physical_design/apply_gate_library.hpp", I + "technology/fcn_gate_library.hpp", I + "technology/qca_one_library.hpp", I + "technology/sim7_mol_library.hpp"],
     [("apply_gate_library", I + "algorithms/physical_design/apply_gate_library.hpp"), ("rotate, merge, mark_cell", I + "technology/fcn_gate_library.hpp"), ("qca_one_library::set_up_gate", I + "technology/qca_one_library.hpp"), ("sim7_mol_library::set_up_gate", I + "technology/sim7_mol_library.hpp")],
     note="QCA cells are modelled by bistable spins; clock zones settle one after another.")
prop("C40", "Graph-oriented layout design yields correct 2DDWave layouts",
     "For networks without gates of more than two inputs, graph-oriented layout design finds a structurally valid 2DDWave-clocked layout that computes the same function under the same names, with inputs and outputs at the borders, and statistics that describe it. "
     "Planar layouts have no crossings, straight inverters do not bend, tiles between inputs are skipped as asked for, and with custom costs the cheapest complete layout that was seen is returned. "
     "Gates with more inputs and missing custom costs are refused.",
     ["inputs"], "all networks within the bounds, all modes and options, all input values",
     "Tests design layouts for a few networks with symmetric gates and compare their functions.",
     [I + "algorithms/physical_design/graph_oriented_layout_design.hpp", I + "algorithms/physical_design/post_layout_optimization.hpp", I + "algorithms/path_finding/a_star.hpp"],
     [("graph_oriented_layout_design_impl::run, expand, place_and_route", I + "algorithms/physical_design/graph_oriented_layout_design.hpp"), ("post_layout_optimization", I + "algorithms/physical_design/post_layout_optimization.hpp")],
     note="Multithreaded search is not covered.")
prop("C41", "Clock numbers are determined exactly if a valid clocking exists",
     "For every gate-level layout, whatever clock numbers it had before, determine_clocking succeeds exactly if clock numbers exist under which every connection runs to the next clock zone and crossing wires share theirs. "
     "It then assigns such numbers below the number of phases; otherwise the clock numbers remain.",
     ["inputs"], "all layouts within the bounds, all models of the SAT solver",
     "Tests determine clockings of a few layouts whose clock numbers were removed; one layout has none.",
     [I + "algorithms/physical_design/determine_clocking.hpp"],
     [("sat_clocking_handler", I + "algorithms/physical_design/determine_clocking.hpp")],
     note="SAT solvers are modelled.")
prop("C42", "Vertex colourings and colour routing connect all that can be connected",
     "Vertex colourings of intersection graphs are proper, their statistics are right, and the SAT engine finds the chromatic number with every search tactic and known cliques. "
     "Colour routing with the SAT engine makes all connections exactly if they can be made together without sharing tiles, or sharing crossings if allowed; partial and limited routing makes valid connections only and counts those left out. "
     "The connections of a layout can be extracted, removed and routed anew to the same function.",
     ["inputs"], "all graphs and routing problems within the bounds",
     "Tests route the connections of a few layouts that are known to be routable.",
     [I + "algorithms/graph/graph_coloring.hpp", I + "algorithms/graph/generate_edge_intersection_graph.hpp", I + "algorithms/physical_design/color_routing.hpp", I + "utils/routing_utils.hpp", I + "algorithms/path_finding/enumerate_all_paths.hpp", I + "algorithms/path_finding/k_shortest_paths.hpp"],
     [("determine_vertex_coloring, sat_coloring_handler", I + "algorithms/graph/graph_coloring.hpp"), ("generate_edge_intersection_graph", I + "algorithms/graph/generate_edge_intersection_graph.hpp"), ("color_routing", I + "algorithms/physical_design/color_routing.hpp"), ("extract_routing_objectives, clear_routing, route_path", I + "utils/routing_utils.hpp")],
     note="SAT solvers are modelled.")
prop("C43", "Explored operational domains are right wherever they are complete",
     "Whatever the shape of an operational domain, grid search lists every point of the sweep, random sampling the sampled ones, flood fill all operational points connected with one that was found and their neighbours, and contour tracing ends, walks the whole outline that the sample leads to, in three dimensions the whole surface, and infers operational points only if there are no holes. "
     "Every point is listed with its status, or critical temperature, under the parameters of that point, is simulated at most once, and the statistics count them; the same holds for physically valid parameters, whose rank counts lower energies. "
     "Sweeps of too few dimensions, of empty ranges or without positive steps are refused, as are sketches that cannot be drawn.",
     ["inputs", "schedules"], "all shapes of domains, samples and both orders of threads within the bounds",
     "Tests explore the domains of a few gates, which are rectangles or unions of them, and compare counts.",
     [I + "algorithms/simulation/sidb/operational_domain.hpp", I + "algorithms/simulation/sidb/operational_domain_ratio.hpp", I + "algorithms/simulation/sidb/physically_valid_parameters.hpp", I + "algorithms/simulation/sidb/sidb_simulation_domain.hpp"],
     [("operational_domain_impl", I + "algorithms/simulation/sidb/operational_domain.hpp"), ("validate_operational_domain_params", I + "algorithms/simulation/sidb/operational_domain.hpp"), ("operational_domain_ratio", I + "algorithms/simulation/sidb/operational_domain_ratio.hpp"), ("physically_valid_parameters", I + "algorithms/simulation/sidb/physically_valid_parameters.hpp")],
     note="Gates are replaced by an oracle, except for one that is simulated.")
prop("C44", "QCA files and defect matrices are read as they were written",
     "A QCA cell layout written to an FQCA file and read back has the same cells, with their types, clock numbers and names, and the same inputs and outputs, with via cells exactly below the layers they connect if these are requested; layouts with too many designated cells and files with unknown contents are refused, naming the fault. "
     "A matrix of defect numbers is read to a surface with the defect of every number at its position; incomplete matrices and unknown numbers are refused.",
     ["inputs"], "all layouts, files and matrices within the bounds",
     "Tests read back two layouts and files; rare cell types, names with spaces, via cells and faults in files are left out.",
     [I + "io/write_fqca_layout.hpp", I + "io/read_fqca_layout.hpp", I + "io/read_sidb_surface_defects.hpp"],
     [("write_fqca_layout", I + "io/write_fqca_layout.hpp"), ("read_fqca_layout", I + "io/read_fqca_layout.hpp"), ("read_sidb_surface_defects", I + "io/read_sidb_surface_defects.hpp")],
     note="Modes are part of the file only as layers; clock numbers of constants are not written.")
