"""The property catalogue.  `python3 props.py` regenerates properties.jsonl and MANIFEST.json from it."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, state=None, observe=None,
         level="exploration"):
    a = dict(files=files, mechanism=[dict(name=m, where=files[0]) if isinstance(m, str) else
                                     dict(name=m[0], where=m[1]) for m in mechanism])
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                           why_tests_cant=why, anchors=a), technique=technique, note=note, level=level))


COORDS = "include/fiction/layouts/coordinates.hpp"

prop("P01", "Coordinate types: construction, packing, total order and hashing agree",
     "Every offset, cube and SiQAD coordinate keeps exactly the values it is constructed from; the 64-bit packing of an offset coordinate is lossless in both directions. <, <=, > and >= are one consistent lexicographic order of the position, whatever the dead indicators (offset and cube: by layer, row, column; SiQAD: by dimer row, dimer position, column); equality and inequality compare the position and the dead indicator, so that a dead coordinate differs from its live twin; equal coordinates have equal hashes.",
     ["inputs"], "for all coordinates of all three coordinate types over their full value ranges, dead or live, and for all pairs and triples of them",
     "Unit tests compare a handful of literals; antisymmetry, transitivity and agreement of six operators, hash and packing range over a 2^64 value space with bit-field edges.",
     [COORDS], ["offset::ucoord_t, cube::coord_t, siqad::coord_t constructors and conversion to uint64_t", "operator==, <, <=, >, >=", "std::hash specialisations"],
     "property-based testing with an independent reference order, exhaustive edge values and libFuzzer in the thorough tier",
     "Generated search over edge-biased coordinates against a plain reference tuple order; ordered and hashed containers are compared with a model. Not exhaustive.")
prop("P02", "Coordinate wrapping, bounded enumeration and area/volume",
     "Wrapping a coordinate that left an aspect ratio carries into the next dimension of the type's order and yields a dead coordinate at the corner once the last dimension overflows. The coordinate iterator visits every coordinate of the aspect ratio exactly once in ascending order and then equals the end iterator; area and volume equal the exact number of coordinates enclosed.",
     ["inputs", "histories"], "for all aspect ratios and start coordinates of all three coordinate types",
     "Tests enumerate two or three fixed boxes; completeness and termination of the enumeration must hold for every extent, including single-row, single-column and two-layer boxes.",
     [COORDS], ["wrap", "coord_iterator", "area", "volume"],
     "property-based testing against a nested-loop reference enumeration and 128-bit arithmetic",
     "Generated aspect ratios (exhaustive for small ones) against nested loops; area and volume against __int128. SiQAD boxes are enumerated with both dimer positions in the boundary.")
prop("P03", "Coordinate conversions and coordinate arithmetic",
     "Converting between SiQAD coordinates and Cartesian offset or cube coordinates is a bijection: y = 2*dimer row + dimer position, and converting there and back gives the original coordinate, for negative rows too. Addition and subtraction of cube and SiQAD coordinates are mutually inverse, commute where addition does, and agree with arithmetic on the converted Cartesian coordinates.",
     ["inputs"], "for all coordinates whose images are representable, negative ones included",
     "Round-trip laws range over all rows and signs; floor/modulo errors for negative odd rows or for carries between dimer rows only show on specific parities.",
     [COORDS], ["siqad::to_fiction_coord", "siqad::to_siqad_coord", "operator+ and operator- of cube and siqad coordinates", "offset to cube conversion"],
     "property-based round-trip and homomorphism testing",
     "Round trips and algebraic laws over generated coordinates against integer arithmetic.")


A = "include/fiction/algorithms/"
U = "include/fiction/utils/"
T = "include/fiction/technology/"
V = "vendors/"

prop("P04", "Aspect ratio enumeration lists exactly the factor pairs",
     "For every number n of tiles, the aspect ratio iterator enumerates every rectangle with exactly n tiles, each orientation exactly once (one of a square), in its documented order, and then moves on to n+1; incrementing, jumping and copying reach the same positions; copies stay independent of and outlive their original; all relational operators agree with the order of iteration.",
     ["inputs", "histories"], "for all tile counts, both coordinate types and all interleavings of increments, jumps, copies and comparisons",
     "The unit tests list the ratios of two numbers; completeness of a factorisation, self-consistency of copies and ordering must hold for each count (primes, squares, powers, large) and for each usage history.",
     [A + "iter/aspect_ratio_iterator.hpp"], ["aspect_ratio_iterator: operator++, +=, comparison, copy, factorisation"],
     "property-based and stateful testing against trial division",
     "Generated tile counts and operation histories against trial-division factor pairs, under ASan.")
prop("P05", "Gray code enumeration visits neighbours that differ in one bit",
     "The Gray code iterator's k-th value is the k-th binary reflected Gray code: successive values differ in exactly one bit, no value repeats before the range ends, and from 0 to 2^n - 1 every n-bit word appears exactly once. Increment, decrement, jump, difference, subscript and comparisons agree with integer arithmetic on positions.",
     ["inputs", "histories"], "for all 64-bit positions and all interleavings of iterator operations",
     "Iterator arithmetic over the full 64-bit range, including the ends of the range and backward steps, cannot be sampled by listing one short sequence.",
     [A + "iter/gray_code_iterator.hpp"], ["gray_code_iterator operators"],
     "stateful property-based testing against an integer position model",
     "Generated positions and histories against an integer model and the defining one-bit property.")
prop("P06", "Combinatorial enumerations are complete, duplicate-free and counted correctly",
     "Binomial coefficients are exact whenever representable; distributing k entities on n positions, and the enumeration of combinations, permutations, circular permutations and their reversible variants visit every object exactly once, leave the range intact, stop when the callback says so, and agree with the counting functions; the Cartesian combinations of a map list every selection exactly once.",
     ["inputs"], "for all sizes, element types, ranges with any content, and stopping points within the enumerable bounds",
     "Completeness of an enumeration and exactness of a count are universal over (n, k); tests check a few small pairs and never the overflow boundary.",
     [U + "math_utils.hpp", U + "combination_utils.hpp", U + "map_utils.hpp", V + "combinations/combinations.h"],
     [("binomial_coefficient", U + "math_utils.hpp"), ("distribution of k entities on n positions", U + "combination_utils.hpp"),
      ("cartesian_combinations", U + "map_utils.hpp"), ("for_each_* and count_each_*", V + "combinations/combinations.h")],
     "property-based testing against brute-force enumeration and Pascal's triangle in 128-bit arithmetic",
     "Generated sizes against independent recursive enumerations and exact arithmetic.")
prop("P07", "Numeric helpers are exact where they promise to be",
     "Rounding to n decimal places yields the nearest representable decimal, is idempotent and symmetric, and leaves integers unchanged; the absolute value of every integer of every type, the smallest one included, is exact in the returned type; the chi cost function is the weighted sum of its arguments and rejects vectors of different sizes.",
     ["inputs"], "for all values of all arithmetic types accepted, precisions and vectors",
     "Edge values (smallest integers, ties, large precisions) are where such helpers break; the tests use mid-range literals.",
     [U + "math_utils.hpp"], ["round_to_n_decimal_places", "integral_abs", "cost_function_chi"],
     "property-based testing against exact integer and long-double references, exhaustive for 16 bit",
     "Generated and exhaustive small-type values against exact references.")
prop("P08", "Container and algorithm helpers behave like their specification",
     "find_first_two_of finds the first adjacent occurrence of a pair from a set of candidates or the end, never reading outside the range; the searchable priority queue keeps its heap order under pushes, pops and in-place searches; tolerant key comparison finds keys within its tolerance in maps; array creation and conversion preserve every element; local time conversion is thread-safe and equals the C library's.",
     ["inputs", "histories"], "for all ranges, operation histories and values, empty and one-element ranges included",
     "Heap order after arbitrary histories and out-of-range reads on empty or short ranges only show for inputs no unit test contains.",
     [U + "stl_utils.hpp", U + "array_utils.hpp", U + "map_utils.hpp"],
     [("find_first_two_of, searchable_priority_queue, safe_localtime", U + "stl_utils.hpp"), ("create_array, convert_array", U + "array_utils.hpp")],
     "stateful property-based testing against multiset and linear-search models, under ASan",
     "Generated ranges and histories against simple models.")
prop("P09", "Hash functions respect equality and spread values",
     "Equal arrays, sets, multisets, pairs, coordinates and ports hash equally, whatever history built them; hash_combine is the sequential fold of its arguments and depends on their order; hash_combine_unordered does not depend on the order of its operands; distinct values do not systematically collide.",
     ["inputs", "histories"], "for all values of the hashed types and all orders of combination",
     "Hash consistency is a relation over pairs of equal values constructed differently; collisions only show over populations.",
     [U + "hash.hpp"], ["hash_combine", "hash_combine_unordered", "std::hash specialisations"],
     "property-based metamorphic testing and population statistics",
     "Generated equal pairs, permutations and populations with collision bounds far from their expectation.")
prop("P10", "Simulated annealing follows the Metropolis rule and returns the best state seen",
     "A run evaluates exactly the states its schedule and cycle counts prescribe, accepts a neighbour if it is better or else with probability exp(-difference/temperature), always continues from the accepted state and returns the best state and cost it saw; cooling schedules produce their documented sequences; the multi-start variant returns the best of its instances.",
     ["inputs", "histories"], "for all cost and neighbour functions, initial states, temperatures, cycle counts and schedules",
     "The acceptance decision of each step depends on hidden random numbers; only the recorded trace of all decisions over many runs separates a right rule from a slightly wrong one.",
     [A + "optimization/simulated_annealing.hpp"], ["simulated_annealing", "multi_simulated_annealing", "linear and geometric temperature schedules"],
     "trace-replay property-based testing and a 7-sigma statistical test of acceptance rates",
     "Every decision of generated runs is replayed against the rule; acceptance frequencies are tested at 7 sigma over fixed seeds.")
prop("P11", "Multi-start simulated annealing is free of data races",
     "Running several annealing instances at once, or several callers annealing at the same time, performs no unsynchronised conflicting access inside the library: each instance works on its own generator and state, and every instance's result is taken into account.",
     ["schedules"], "for all thread schedules, instance counts and concurrent callers",
     "A race does not change results on most schedules and no test runs under a race detector.",
     [A + "optimization/simulated_annealing.hpp"], ["multi_simulated_annealing"],
     "schedule exploration by randomised repetition under ThreadSanitizer",
     "Generated instance counts and callers, repeated under TSan's happens-before detector; only executed schedules are judged.")
prop("P12", "Potential-to-distance conversion inverts the screened Coulomb potential",
     "For every potential, physical parameter set and precision, the returned distance is the first multiple of the precision step at which the screened Coulomb potential is not above the given one; larger potentials give no larger distances. Derived parameters (Coulomb constant over permittivity, the +/0 transition level) follow their defining formulas, and constants have their physical values.",
     ["inputs"], "for all potentials, permittivities, screening lengths, transition levels and precisions in the physical range",
     "The inverse property and monotonicity quantify over a continuous parameter space; tests check three points.",
     [A + "simulation/sidb/potential_to_distance_conversion.hpp", A + "simulation/sidb/sidb_simulation_parameters.hpp", T + "constants.hpp"],
     ["potential_to_distance_conversion", ("k, mu_plus", A + "simulation/sidb/sidb_simulation_parameters.hpp")],
     "property-based testing against the defining formula evaluated in long double",
     "Generated parameters against the forward formula with a rounding margin.")
prop("P13", "CSV output reproduces every field in order",
     "Each call to write_line produces one line that holds exactly the given fields in order, separated by commas and without a trailing separator, in the stream's formatting; lines of different widths and types and interleaved writers on one stream do not affect one another.",
     ["inputs", "histories"], "for all field types, counts, values and interleavings of writers",
     "Tests write one line of fixed types.",
     ["include/fiction/io/csv_writer.hpp"], ["csv_writer::write_line"],
     "property-based round-trip testing against a reference formatter",
     "Generated lines are parsed back and compared with the fields.")
prop("P14", "Charge states and surface defects keep their meaning",
     "Converting charge states to signs, strings and back is lossless for the three physical states; a configuration string lists the charges in order; the allowed states follow the base number; every defect type is either charged or neutral, never both; defect equality is an equivalence relation consistent with its fields, and hashing respects it.",
     ["inputs"], "for all charge state sequences, signs, base numbers, defect types and field values",
     "Tests convert the listed enumerators once; classification must hold for every type and equality for every field combination.",
     [T + "sidb_charge_state.hpp", T + "sidb_defects.hpp"],
     [("sign_to_charge_state, charge_state_to_sign, charge_configuration_to_string, sidb_charge_states_for_base_number", T + "sidb_charge_state.hpp"),
      ("sidb_defect, is_positively_charged_defect, is_negatively_charged_defect, is_neutrally_charged_defect", T + "sidb_defects.hpp")],
     "property-based testing, exhaustive over enumerators",
     "Exhaustive over types and signs, generated over sequences and field values.")
prop("P15", "Cell technologies classify their cell types and modes correctly",
     "In the QCA, molQCA, iNML and SiDB technologies, each predicate accepts exactly the cell types and modes it is named after and composite predicates are the union of their parts; marks map to the types of the same name; molQCA cells encode clock numbers 0 to 3 for the four normal types in order; cell sizes and spacings are the simulators' defaults.",
     ["inputs"], "for all 256 values of the underlying type, of each technology",
     "No test covers the predicates for the symbols of other types or modes.",
     [T + "cell_technologies.hpp"], ["is_*_cell, is_*_cell_mode, cell_clock_number, cell_mark"],
     "exhaustive enumeration of the 8-bit domains against an independent symbol table",
     "Exhaustive over the value domain of every technology.")
prop("P16", "Ports and port lists form sets by location",
     "Ports are ordered and equal by location alone (column then row, or cardinal direction), with hashes that agree; port lists hold each location once, are equal when inputs and outputs are, and merging yields the union of inputs with inputs and outputs with outputs without altering ports already present; the input and output flags of the design are off unless given; formatting names every direction and position.",
     ["inputs", "histories"], "for all positions, directions, flags and port lists",
     "Set semantics over overlapping lists with differing flags is not exercised by tests.",
     [T + "cell_ports.hpp"], ["port_position, port_direction, port_list: operator<, ==, +=, std::hash, fmt::formatter"],
     "property-based testing against plain sets of locations",
     "Generated ports and lists against sets of integer keys.")
prop("P17", "The technology mapping library is well-formed and faithful to gate names",
     "Every library entry is one syntactically valid genlib line; each gate's function is the one its name denotes on all inputs; names are unique in any assembled library; every decayed gate is a distinct function of at most two inputs that its parent takes when its inputs are tied to constants or to each other; all gates with inputs have the same area, load and delays, and constants cost nothing.",
     ["inputs", "configurations"], "for all entries, all input assignments and all selections of entries",
     "No test evaluates the expressions; a wrong literal is only visible on the right input assignment.",
     [T + "technology_mapping_library.hpp"], ["GATE_* and DECAY_* strings"],
     "exhaustive evaluation by an independent genlib parser and generated library selections",
     "All entries on all assignments; generated selections for assembly.")
prop("P18", "Graph colouring heuristics return complete proper colourings",
     "Every colouring algorithm terminates on every simple graph and gives each vertex a colour such that neighbours differ; the colour count it reports matches; a k-colouring never uses more than k colours, or nothing is reported; saturation-degree colouring is exact on bipartite graphs and maximum-cardinality-search colouring is optimal on chordal graphs; validity and completeness predicates judge the current graph correctly.",
     ["inputs", "histories"], "for all simple undirected graphs (isolated vertices and several components included), parameters and random seeds",
     "Termination and properness of randomised heuristics over all graphs; the algorithms are not covered by the runnable tests at all.",
     [V + "graph-coloring/Source/coloring_algorithm.cpp", V + "graph-coloring/Source/dsatur.cpp", V + "graph-coloring/Source/mcs.cpp",
      V + "graph-coloring/Source/lmxrlf.cpp", V + "graph-coloring/Source/tabucol.cpp", V + "graph-coloring/Source/hybrid_dsatur.cpp", V + "graph-coloring/Source/hybrid_lmxrlf.cpp"],
     [("GraphColor::is_valid, is_colored, get_num_colors", V + "graph-coloring/Source/coloring_algorithm.cpp"),
      ("color() of each algorithm", V + "graph-coloring/Source/dsatur.cpp")],
     "property-based testing with exact colouring by backtracking as oracle; rand() is replaced by a generated stream",
     "Generated general, bipartite and chordal graphs; properness, termination budget and optimality against backtracking.")
prop("P19", "The undirected graph container matches its model under all histories",
     "After every history of inserting and erasing vertices and edges (loops included, erasing by ids stored in the graph included), writing data, copying and clearing, vertices, edges, data and adjacency lists are exactly those of the mathematical graph; breadth-first and depth-first iterators visit exactly the connected component once, breadth-first in order of distance; undirected pairs compare and hash independently of element order.",
     ["histories", "inputs"], "for all operation histories and graphs",
     "Consistency of three containers under arbitrary histories, and iterator validity under erasure, are not touched by the runnable tests.",
     [V + "undirected_graph/source/undirected_graph.h", V + "undirected_graph/source/undirected_pair.h", V + "undirected_graph/source/graph_search_iterator.h"],
     ["insert_vertex, insert_edge, erase_vertex, erase_edge, clear", ("breadth_first_iterator, depth_first_iterator", V + "undirected_graph/source/graph_search_iterator.h"),
      ("undirected_pair", V + "undirected_graph/source/undirected_pair.h")],
     "stateful model-based testing under ASan",
     "Generated histories against std::map models after every step.")
prop("P20", "Layout printers report every assignment",
     "The debugging printers list every node (or every tile, with its node if it has one) once in iteration order, with its position and all its fan-ins and fan-outs with theirs, in the documented textual form.",
     ["inputs"], "for all layouts offering the required interface",
     "No test covers the printers.",
     [U + "debug/layout_printer.hpp"], ["print_node_to_tile_assignments", "print_tile_to_node_assignments"],
     "property-based testing against a reference rendering of generated layouts",
     "Generated stand-in layouts; the whole output is compared.")


L = "include/fiction/layouts/"
N = "include/fiction/networks/"
IO = "include/fiction/io/"

prop("P21", "Coordinate layouts are the grids they claim to be",
     "In every Cartesian, shifted Cartesian and hexagonal layout of any size, the directional functions (north to west, above, below, and the diagonals) move one step in their direction and stay put exactly at the border; adjacency is symmetric and holds exactly for the faces that touch; the border and size queries, and the orientation predicates, agree with the positions; the enumeration of faces and tiles visits each one of the requested layer or ground exactly once in order; hexagonal positions convert to cube coordinates and back without loss, in all four arrangements.",
     ["inputs"], "for all layout types, sizes, coordinate types and coordinates, before and after resizing",
     "The tests (none of which can run here) look at one coordinate of each layout type; parity- and border-dependent arithmetic in four hexagonal arrangements must be right everywhere.",
     [L + "cartesian_layout.hpp", L + "hexagonal_layout.hpp", L + "shifted_cartesian_layout.hpp", L + "tile_based_layout.hpp"],
     ["north ... west, above, below, is_adjacent_of, is_at_*_border, foreach_adjacent_coordinate", ("odd_row ... even_column, to_cube_coordinate, to_offset_coordinate", L + "hexagonal_layout.hpp"),
      ("foreach_tile, foreach_ground_tile", L + "tile_based_layout.hpp")],
     "property-based testing against a planar geometry of the faces",
     "Generated layouts of all types and arrangements; adjacency is decided by where the faces lie in the plane, the rest by integer arithmetic.")
prop("P22", "Clocking schemes and clocked layouts",
     "Every predefined clocking scheme assigns, at every position, layer and layout type, the clock number of its published cutout, below its number of phases; it is found by its name whatever the case. Linear schemes have no cyclic information flow on the topologies they are made for; incoming and outgoing zones are converse and are exactly the adjacent zones one phase earlier or later. Overriding a zone changes that zone only and makes the layout irregular; clones and copies of a scheme are independent of their original. Synchronization elements connect exactly the adjacent zones they touch.",
     ["inputs", "histories"], "for all positions, schemes, layout types, override histories, clones and synchronization elements",
     "The tests list one cutout at the origin and cannot run here; independence of clones, adjacency near borders and interplay of overrides and elements are never exercised.",
     [L + "clocking_scheme.hpp", L + "clocked_layout.hpp", L + "synchronization_element_layout.hpp"],
     ["clocking_scheme::operator(), override_clock_number, get_clocking_scheme, is_linear_scheme",
      ("assign_clock_number, replace_clocking_scheme, clone, incoming/outgoing_clocked_zones, degrees", L + "clocked_layout.hpp"),
      ("assign_synchronization_element and the overridden queries", L + "synchronization_element_layout.hpp")],
     "property-based and stateful testing against closed forms, published cutouts and a model of overrides",
     "Generated positions (exhaustive over schemes), layouts and histories; acyclicity by topological sorting of generated layouts.")
prop("P23", "Gate-level layouts match their model under every history",
     "After any history of creating inputs, outputs and gates, overwriting, moving, connecting and clearing tiles, naming and cloning, a gate-level layout holds exactly the nodes placed on its tiles: the inputs and outputs in order, the counts of gates, wires and crossings, the live nodes, names, functions and types are those of the history; data flow in and out of every tile is exactly what the connections, adjacency and clocking imply, in every cardinal direction; nodes compute the function they were created with; clones are independent.",
     ["histories"], "for all operation histories on Cartesian and hexagonal layouts of all clocking schemes",
     "Bookkeeping of five containers and three counters under arbitrary interleavings; tests build small layouts once and check them, and cannot run here.",
     [L + "gate_level_layout.hpp"],
     ["create_pi, create_po, create_*, create_node, move_node, connect, clear_tile, clone", "foreach_fanin, foreach_fanout, incoming/outgoing_data_flow, has_*_signal", "num_gates, num_wires, num_crossings, is_dead", "compute"],
     "stateful model-based testing",
     "Generated histories on layouts of up to 5 x 5 x 2 tiles and two clones, compared with a plain model after every step.")
prop("P24", "Cells, obstructions, bounding boxes and surface defects are what was put there",
     "After any history of assigning, overwriting and erasing cells, modes, names, tile sizes and clock zones, a cell-level layout of every technology reports exactly the cells, inputs, outputs, counts, modes, names, clock numbers (by clock zone) and area that the history implies, and clones are independent; an obstruction layout reports exactly the obstructions made and not taken back plus the contents of the layout; the bounding box is the smallest box around all non-empty positions and defects in every coordinate system; a defect surface holds exactly the defects assigned or moved there and not ignored, with their counts and the SiDBs within their extent; physical positions and distances follow from the lattice constants.",
     ["histories", "inputs"], "for all operation histories on layouts of all technologies and coordinate systems, all positions",
     "Histories with overwriting, erasing and moving onto occupied positions are combinatorial; the tests look at a handful of fixed layouts.",
     [L + "cell_level_layout.hpp", L + "obstruction_layout.hpp", L + "bounding_box.hpp", T + "sidb_defect_surface.hpp", T + "sidb_nm_position.hpp", T + "sidb_nm_distance.hpp", T + "area.hpp"],
     ["assign_cell_type, assign_cell_mode, assign_cell_name, get_clock_number", "obstruct_*, clear_obstructed_*, is_obstructed_*", "bounding_box_2d", "assign_sidb_defect, move_sidb_defect, affected_sidbs", "sidb_nm_position, sidb_nm_distance, area"],
     "stateful model-based testing",
     "Generated histories over four technologies and three coordinate systems compared with plain maps after every step; closed forms for boxes, areas and positions.")
prop("P25", "Technology networks and network views describe the network",
     "A technology network computes, at every node, the function the node was created with, and its type predicates, fan-in and fan-out enumerations, sizes and clones agree with the history of creations and substitutions. Virtual primary inputs are bookkept exactly: they map to their originals and deleting them restores the network's function. Depth views report the longest path from the inputs to every node and to the outputs, also as the network grows; the rank view places every node in one rank, keeps the order it was given and stays consistent when ranks are modified; the breadth-first topological view lists every reachable node once, after its fan-ins; edge colours, edge enumeration, inverse and fan-in queries agree with the network's structure.",
     ["inputs", "histories"], "for all networks of every network type, all functions, and histories of modifications",
     "The tests (none of which can run here) build half a dozen fixed networks; duplicate fan-ins, dangling nodes, constant outputs and shared outputs never occur in them.",
     [N + "technology_network.hpp", N + "virtual_pi_network.hpp", N + "views/static_depth_view.hpp", N + "views/mutable_rank_view.hpp", N + "views/bfs_topo_view.hpp", N + "views/edge_color_view.hpp", U + "network_utils.hpp"],
     ["create_node and create_*, is_*, clone, compute", ("create_virtual_pi, get_real_pi", N + "virtual_pi_network.hpp"), ("delete_virtual_pis", A + "network_transformation/delete_virtual_pis.hpp"),
      ("level, depth, on_add", N + "views/static_depth_view.hpp"), ("rank_position, swap, sort_rank, modify_rank", N + "views/mutable_rank_view.hpp"), ("foreach_edge, fanins, is_nth_fanin_inverter, inverse_levels", U + "network_utils.hpp")],
     "stateful model-based testing",
     "Generated networks with a model of every node's function, compared by exhaustive simulation; levels and orders recomputed from the edges.")
prop("P26", "Network transformations preserve the function and achieve their purpose",
     "Converting a network between types, substituting fan-outs and balancing paths preserve the number and order of inputs and outputs, their names, the network's name and the function of every output. After fan-out substitution no node other than a fan-out node drives more than one fan-in or output, fan-out nodes drive no more than the configured degree, and the threshold is honoured, under every strategy; after balancing, every fan-in of a node comes from the level right below, and all outputs are on the same level if unified.",
     ["inputs"], "for all networks of all network types and all parameters",
     "The tests compare a few benchmark networks with their original by SAT; structural corner cases (duplicate fan-ins, no outputs, constants, gates without counterpart) are missing.",
     [A + "network_transformation/network_conversion.hpp", A + "network_transformation/fanout_substitution.hpp", A + "network_transformation/network_balancing.hpp"],
     ["convert_network", "fanout_substitution, is_fanout_substituted", ("network_balancing, is_balanced", A + "network_transformation/network_balancing.hpp")],
     "property-based testing with exhaustive simulation as the oracle",
     "Generated networks of up to 6 inputs, all strategies and degrees; functions compared on all assignments, purposes recomputed from the edges.")
prop("P27", "Path finding finds exactly the best routes",
     "On every coordinate, clocked and gate-level layout with any obstructions: A* returns a route between source and target iff one exists, every step of it is permitted (adjacent, with the clocking, around obstructions, crossing wires only where allowed and wanted), and it is a cheapest one for every admissible heuristic and cost function; the exact distance is its length. Enumerating all paths lists each loop-free route exactly once; Yen's algorithm lists the k shortest of them (all if there are fewer). The distance functions compute their closed forms; distance maps and caches answer as the function they store. None of them changes the layout.",
     ["inputs"], "for all layouts, topologies, clocking schemes, obstructions, wirings, pairs of positions, costs and k",
     "The tests compare a few routes on small grids; heuristics, weights, obstructions and crossings interact, and completeness is a statement about all routes.",
     [A + "path_finding/a_star.hpp", A + "path_finding/enumerate_all_paths.hpp", A + "path_finding/k_shortest_paths.hpp", A + "path_finding/distance.hpp", A + "path_finding/distance_map.hpp", A + "path_finding/cost.hpp", U + "routing_utils.hpp"],
     ["a_star, a_star_distance", ("enumerate_all_paths", A + "path_finding/enumerate_all_paths.hpp"), ("yen_k_shortest_paths", A + "path_finding/k_shortest_paths.hpp"), ("manhattan_distance ... chebyshev_distance", A + "path_finding/distance.hpp"), ("initialize_distance_map, smart_distance_cache_functor", A + "path_finding/distance_map.hpp"), ("is_crossable_wire", U + "routing_utils.hpp")],
     "property-based testing against Dijkstra's algorithm and exhaustive enumeration on an explicit graph of permitted steps",
     "Generated layouts of eight types with obstructions, gates and wires; the graph of permitted steps is built from the documented rules.")
prop("P28", "Multi-path routing lays exactly conflict-free routes",
     "On every layout and set of routing objectives, the edge intersection graph has one vertex per route (up to the path limit) of every objective and an edge exactly between routes that cannot be laid together, with one clique per routable objective; every colouring engine assigns every vertex a colour distinct from its neighbours', reports the number and most frequent colour correctly, and the SAT engine's colourings use the fewest possible colours with all tactics and with symmetry breaking. Colour routing succeeds with the exact engine iff all objectives can be satisfied together (or, partially, reports how many it left out), lays exactly one permitted connection for each satisfied objective, changes nothing else, and leaves the layout as it was if it fails. Extracting the objectives of a routed layout lists its gate-to-gate connections; clearing the routing removes the wires and only them.",
     ["inputs"], "for all layouts, clocking schemes, objectives, obstructions, path limits, engines and tactics",
     "The tests route a few hand-made layouts; whether routes conflict and whether a conflict-free selection exists depends on the whole layout.",
     [A + "graph/generate_edge_intersection_graph.hpp", A + "graph/graph_coloring.hpp", A + "physical_design/color_routing.hpp", U + "routing_utils.hpp"],
     ["generate_edge_intersection_graph", ("determine_vertex_coloring", A + "graph/graph_coloring.hpp"), ("color_routing", A + "physical_design/color_routing.hpp"), ("extract_routing_objectives, clear_routing, route_path", U + "routing_utils.hpp")],
     "property-based testing against exhaustive enumeration of routes, brute-force chromatic numbers and exhaustive selection of compatible routes",
     "Generated boards of gates and wires with up to six objectives; SAT instances run on the stand-in solver of shim/bill, itself compared with brute force.")
prop("P29", "Orthogonal physical design implements every network",
     "For every logic network of gates with at most two inputs (other than constants) and without duplicate fan-ins, the orthogonal physical design algorithm returns a 2DDWave-clocked layout with the requested number of phases in which every connection links adjacent tiles in the direction of the information flow, only wires cross and only wires, no tile is used twice or feeds more than it can, inputs are in the first and outputs in the last column, that has no design rule violations, computes the network's functions with inputs and outputs in order and keeps all names, and whose reported size and gate, wire and crossing counts are right; gates with more inputs are rejected.",
     ["inputs"], "for all technology networks, AIGs and MIGs, gate functions (including asymmetric ones), names and numbers of clock phases",
     "The tests lay out about ten networks, none with asymmetric gates or chains of outputs; whether wires collide depends on the whole drawing.",
     [A + "physical_design/orthogonal.hpp", A + "network_transformation/fanout_substitution.hpp", U + "placement_utils.hpp", A + "verification/design_rule_violations.hpp", U + "name_utils.hpp"],
     ["orthogonal", ("connect_and_place, place_outputs", A + "physical_design/orthogonal.hpp"), ("place, reserve_input_nodes", U + "placement_utils.hpp"), ("restore_names", U + "name_utils.hpp")],
     "property-based testing: generated networks, an own tile-by-tile rule check and exhaustive simulation of the layout against the network's model",
     "Networks of up to 30 gates, 5 inputs and 5 outputs in the quick tier.")
prop("P30", "Layout optimizations and hexagonalization preserve the design",
     "Wiring reduction and post-layout optimization of a 2DDWave-clocked layout, and its hexagonalization to a row-clocked hexagonal layout with any extension of inputs and outputs, return a layout with the same gates, inputs and outputs (in order and with their names) that computes the same function, obeys the tile rules and has no design rule violations; the optimizations never enlarge the layout, trim it to its contents and keep outputs on the eastern or southern border, planar optimization adds no crossings, extended inputs and outputs lie in the first and last row, hexagonalization leaves its argument alone, and the reported sizes and counts are those of the layouts.",
     ["inputs"], "for all orthogonal layouts of technology networks of one- and two-input gates (including asymmetric ones and chains of buffers) and all parameters of the algorithms",
     "The tests optimize a few benchmark layouts of symmetric gates; whether a relocation rewires a gate correctly depends on the neighbourhood of each node.",
     [A + "physical_design/post_layout_optimization.hpp", A + "physical_design/wiring_reduction.hpp", A + "physical_design/hexagonalization.hpp", U + "placement_utils.hpp", U + "routing_utils.hpp", A + "path_finding/a_star.hpp"],
     ["post_layout_optimization", ("improve_gate_location, optimize_output_positions", A + "physical_design/post_layout_optimization.hpp"), ("wiring_reduction, wiring_reduction_layout", A + "physical_design/wiring_reduction.hpp"), ("hexagonalization, to_hex", A + "physical_design/hexagonalization.hpp")],
     "property-based testing: generated networks are laid out and transformed; an own tile-by-tile rule check, exhaustive simulation against the network's model and metamorphic relations between the layouts before and after decide",
     "Networks of up to 14 gates, 5 inputs and 4 outputs; post-layout optimization of such layouts takes milliseconds to a second.")
prop("P31", "A charge distribution surface reports the physics of what it holds",
     "For SiDBs on either lattice with any charges, charged defects, external potentials and physical parameters, the surface's distances, chargeless, internal, external, defect and local potentials, transition thresholds, system energy (external energy plus half the pairwise screened-Coulomb energy, defects included) and physical validity (population stability of every SiDB and no energetically favoured electron hop) are those of the present configuration after any history of charge, charge-index, defect, potential, parameter and cell-type changes; charge index and distribution correspond one to one in base two and three; stepping the index by counting or Gray code visits every configuration once, with a dependent SiDB taking the charge its potential demands; positive-charge prediction is exact; copies, clones and assigned surfaces equal their source and change independently.",
     ["inputs", "histories"], "for all SiDB layouts with coordinates of every kind, physical parameters, defects, external potentials and sequences of operations on one or several surfaces",
     "The tests compare a few hand-computed potentials of two or three SiDBs; incrementally updated potentials and indices go wrong only in particular sequences of changes.",
     [T + "charge_distribution_surface.hpp", T + "sidb_defects.hpp", T + "sidb_nm_position.hpp", T + "sidb_nm_distance.hpp", T + "sidb_defect_surface.hpp", A + "simulation/sidb/can_positive_charges_occur.hpp"],
     ["charge_distribution_surface", ("update_local_internal_potential, recompute_electrostatic_potential_energy, validity_check, is_configuration_stable", T + "charge_distribution_surface.hpp"), ("can_positive_charges_occur", A + "simulation/sidb/can_positive_charges_occur.hpp")],
     "model-based property-based testing: operation histories run against an independent electrostatic model that recomputes everything from scratch after every step; configuration enumeration against the same model",
     "Up to eight SiDBs, four defects and four surfaces per history; comparisons with a relative tolerance of 1e-9 (1e-7 for incrementally updated potentials), verdicts within 4e-6 V of a threshold are not judged.")

prop("P32", "Ground state engines report exactly the physically valid charge distributions",
     "Exhaustive simulation and QuickExact (with and without automatic base-number detection, with defects and with global and local external potentials) report every physically valid charge distribution of an SiDB layout exactly once and nothing else, QuickSim reports only physically valid ones (and always finds the all-negative one if valid), for any number of threads; each reported distribution carries its true energy, local potentials, charge index and validity, and the simulated layout is unchanged. Ground states, minimum energy, energy distribution with degeneracies, ground-state comparison and result equivalence are those of the set of reported distributions, independent of order and repetition.",
     ["inputs", "schedules"], "for all SiDB layouts, lattices, physical parameters, bases, defects, external potentials, engine parameters and thread counts",
     "The tests simulate a few published gates; pruning of pre-assigned SiDBs, base detection and incremental potentials drop or invent distributions only for particular geometries and parameters.",
     [A + "simulation/sidb/quickexact.hpp", A + "simulation/sidb/exhaustive_ground_state_simulation.hpp", A + "simulation/sidb/quicksim.hpp", A + "simulation/sidb/sidb_simulation_result.hpp", A + "simulation/sidb/energy_distribution.hpp", A + "simulation/sidb/minimum_energy.hpp", A + "simulation/sidb/is_ground_state.hpp", A + "simulation/sidb/equivalence_check_for_simulation_results.hpp", T + "charge_distribution_surface.hpp"],
     ["quickexact", "exhaustive_ground_state_simulation", "quicksim", ("groundstates", A + "simulation/sidb/sidb_simulation_result.hpp"), ("calculate_energy_distribution", A + "simulation/sidb/energy_distribution.hpp"), ("is_ground_state", A + "simulation/sidb/is_ground_state.hpp"), ("check_simulation_results_for_equivalence", A + "simulation/sidb/equivalence_check_for_simulation_results.hpp")],
     "differential property-based testing: generated layouts are simulated and compared with a brute-force enumeration of all configurations under an independent electrostatic model",
     "Up to six SiDBs in base three, eight in base two, nine for QuickSim; configurations within 4e-6 V of a threshold are not judged; the completeness of QuickSim, a heuristic, is not claimed. ClusterComplete and its ground state space need ALGLIB, which is not available.")
prop("P33", "SiDB gates are read and judged correctly",
     "For SiDB layouts, BDL pair detection joins dots of the same type within the distance bounds, closest first, each dot at most once, and leaves no admissible couple unpaired; BDL wire detection partitions the pairs into the wires of a gate, in order, with their ends and flow directions, for inputs, outputs and all wires; the input iterator and the generated input pattern layouts place exactly the perturbers of every input pattern (distance- or absence-encoded, first input most significant) under any navigation and leave the given layout and all other dots alone. A gate is operational exactly if for every input pattern no positive charge is possible under two-state simulation and every ground state shows the specified outputs (and no kinks in its input and output wires, if rejected); operational input patterns, patterns and gates failing only because of kinks, and the verdict on a single charge distribution agree with that, for every engine, overload and analysis strategy, and filtering never rejects an operational gate.",
     ["inputs"], "for all gates built from BDL wires, lattices positions, flow directions, functions, physical parameters, encodings, engines and strategies",
     "The tests judge a dozen published gates at a few parameter points; degenerate ground states, kinks in one pattern and wrong outputs in another, mirrored flow directions and borderline distances are not among them.",
     [A + "simulation/sidb/is_operational.hpp", A + "simulation/sidb/detect_bdl_pairs.hpp", A + "simulation/sidb/detect_bdl_wires.hpp", A + "iter/bdl_input_iterator.hpp", A + "simulation/sidb/verify_logic_match.hpp"],
     ["is_operational", "operational_input_patterns", "kink_induced_non_operational_input_patterns", "is_kink_induced_non_operational", "detect_bdl_pairs", "detect_bdl_wires", "bdl_input_iterator", "generate_bdl_input_pattern_layouts", "verify_logic_match"],
     "differential property-based testing: gates are generated from wires known by construction, and every verdict is compared with a brute-force simulation under an independent electrostatic model; pair detection is checked against its greedy specification",
     "One or two inputs and outputs, wires of up to four pairs, up to eight permanent dots (five in base three) for verdicts; gates within 4e-6 V of a threshold or 2e-6 eV of a degeneracy are not judged; filter soundness is only claimed where all perturbers and isolated dots are negative in the ground state; QuickSim and ClusterComplete are not used as engines.")

prop("P34", "Thermal robustness and stability figures follow from the charge distributions",
     "Occupation probabilities are the Boltzmann-weighted shares of erroneous or excited states; the critical temperature of a layout or gate is the lowest temperature of the 0.01 K grid at which that probability exceeds one minus the confidence level for some input pattern, the maximum temperature if there is none, and zero if some input pattern has no correct ground state, no valid state or possible positive charges, and the reported energy gap and number of states are those of the simulation. Population stability lists every physically valid charge distribution in ascending energy with the least potential for each charge transition, the SiDB it belongs to and the equivalent distance; band bending resilience is the minimum over all input patterns. Time to solution and accuracy follow from the share of runs that find all ground states, and runs without a result count as failures.",
     ["inputs", "histories"], "for all SiDB layouts and gates, functions, physical parameters, confidence levels, temperatures and sets of simulation results",
     "The tests compare a few published gates with stored numbers (two of which were recorded from wrong behaviour); degenerate ground states, failing runs, absent perturbers and the grid's ends are not covered.",
     [A + "simulation/sidb/critical_temperature.hpp", A + "simulation/sidb/calculate_energy_and_state_type.hpp", A + "simulation/sidb/occupation_probability_of_excited_states.hpp", A + "simulation/sidb/physical_population_stability.hpp", A + "simulation/sidb/band_bending_resilience.hpp", A + "simulation/sidb/time_to_solution.hpp"],
     ["critical_temperature_gate_based", "critical_temperature_non_gate_based", "calculate_energy_and_state_type_with_kinks_accepted", "calculate_energy_and_state_type_with_kinks_rejected", "occupation_probability_gate_based", "occupation_probability_non_gate_based", "physical_population_stability", "band_bending_resilience", "time_to_solution"],
     "differential property-based testing: layouts, gates and sets of results are generated and every figure is recomputed from a brute-force simulation under an independent electrostatic model",
     "Up to eight SiDBs; cases with energies that differ by less than 5e-6 eV without being equal are not judged. Two recorded findings (KF-2, KF-3): their exact wrong answers are tolerated, any other deviation is reported.")
prop("P35", "Layout files: what is written is what is read back",
     "A gate-level layout written to an FGL file and read back has the same size, topology, clocking (scheme, number of phases, zones of irregular schemes on all layers), names, inputs and outputs in the same order, and every gate that its outputs depend on with the same function and the same fan-ins in the same order. QCA layouts keep every cell's position, type, mode, clock number and label through FQCA, with via layers if asked for; SiDB layouts keep every dot and its type and every defect with its type, charge and screening parameters through SQD. Surface defect maps and truth table files are read exactly. Special characters in names survive. Malformed files are rejected with the documented exception.",
     ["inputs"], "for all layouts that the respective format can express, all names, and all single-line corruptions of the files",
     "The tests write and read a few fixed layouts with plain names; three-phase schemes, crossings in irregular schemes, names with special characters, labels with spaces, arsenic defects and empty files are not among them.",
     [IO + "write_fgl_layout.hpp", IO + "read_fgl_layout.hpp", IO + "write_fqca_layout.hpp", IO + "read_fqca_layout.hpp", IO + "write_sqd_layout.hpp", IO + "read_sqd_layout.hpp", IO + "read_sidb_surface_defects.hpp", IO + "tt_reader.hpp"],
     ["write_fgl_layout", "read_fgl_layout", "write_fqca_layout", "read_fqca_layout", "write_sqd_layout", "read_sqd_layout", "read_sidb_surface_defects", "tt_reader"],
     "round-trip property-based testing through streams and scratch files; model-based corruption of written files for the rejection of malformed ones",
     "Formats drop what they cannot express (gates outside the cones of outputs in FGL; clock numbers of constant cells and names of constant cells in FQCA); that is not judged. XML parsing is done by a stand-in for tinyxml2.")
prop("P36", "Verification: design rules, equivalence, miters, timing, gate counts",
     "The design rule checker reports exactly the violations present in a gate-level layout (unlocated or misplaced I/O, crossings of non-wires, missing connections, non-adjacent or clock-violating connections, I/O not at the border where demanded) and none on layouts that respect the rules. Critical path length and throughput equal those of the longest path and the worst fan-in imbalance of the layout. equivalence_checking answers NO with a real counterexample exactly if the two specifications compute different functions, STRONG/WEAK if they agree, and treats layouts with rule violations as not equivalent. Virtual miters of a network and one with virtual primary inputs compute the XOR of the outputs with the virtual inputs mapped to their originals. count_gate_types counts every gate of a layout or network under its type.",
     ["inputs"], "for all gate-level layouts (also broken ones), all topologies and clockings, and all pairs of logic networks and layouts",
     "The tests check a handful of correct blueprint layouts and tiny networks; broken layouts are sampled a few times, throughput on two fixed examples.",
     [A + "verification/design_rule_violations.hpp", A + "verification/equivalence_checking.hpp", A + "verification/virtual_miter.hpp", A + "properties/critical_path_length_and_throughput.hpp", A + "properties/count_gate_types.hpp"],
     ["gate_level_drvs", "equivalence_checking", "virtual_miter", "critical_path_length_and_throughput", "count_gate_types"],
     "property-based testing: independently written rule checker, longest-path model and exhaustive truth-table evaluation as oracles; generated correct and broken layouts",
     "The kind of equivalence (STRONG/WEAK) of two layouts with the same throughput above one is not judged: the documentation is ambiguous. Gate counts of layouts count input and output pins as the tiles they are.")
prop("P37", "Gate libraries: cell layouts compute what the gate layout does",
     "apply_gate_library places the cells of every gate inside its own tile of a cell layout of the right size, keeps name, clocking and I/O, and the cells compute the function of the gate: QCA ONE tiles settle to the gate's value under the kink energies of neighbouring cells including crossings in the second layer; molecular SIM 7 tiles carry signals in phase order from every incoming to every outgoing port with fixed cells for AND/OR; the ground state of the dots of every Bestagon tile shows the value of the gate for every input assignment, in both hexagonal row arrangements. Defects of a surface are kept. A gate a library does not support is reported with its position instead of being dropped. magcad_magnet_count counts chains of four inverter magnets once.",
     ["inputs"], "for all gate-level layouts made of gates of the library, all orientations, clocking schemes and numbers of clocks, for all input assignments",
     "The tests compare file contents of a few layouts; no test simulates the cells of any library, and most orientations of most tiles are never instantiated.",
     [A + "physical_design/apply_gate_library.hpp", T + "fcn_gate_library.hpp", T + "qca_one_library.hpp", T + "sim7_mol_library.hpp", T + "sidb_bestagon_library.hpp", T + "magcad_magnet_count.hpp", U + "layout_utils.hpp"],
     ["apply_gate_library", "apply_gate_library_to_defective_surface", "qca_one_library", "sim7_mol_library", "sidb_bestagon_library", "relative_to_absolute_cell_position", "magcad_magnet_count"],
     "property-based testing: generated placed and routed circuits; tiles judged by independent simulation (kink energies for QCA, exact charge ground states for SiDBs, phase order for molecular cells)",
     "Bestagon tiles are simulated tile by tile with the two-state model at mu = -0.32 eV, eps_r = 5.6 and lambda_tf = 5 nm (the parameters the library was designed for). Cell-level clock numbers are judged for Cartesian tiles only. The iNML library is judged for magnet counts only.")
prop("P38", "Operational domains: every sampled point has its true status",
     "For an SiDB gate and a sweep over one to three simulation parameters, operational_domain_grid_search visits exactly the points min, min+step, ... up to max of every dimension and assigns each one the gate's true status (with and without kinks tolerated, both exact engines, any number of threads); random sampling at most the given number of points; flood fill also every Moore neighbour of each operational point it found; 2-D contour tracing every boundary point of each (hole-free) operational area it found, also for thin areas and areas at the border of the range. Statistics (points, invocations, operational/non-operational counts) match. critical_temperature_domain stores critical_temperature_gate_based per operational point and 0 otherwise; operational_domain_ratio is the size of the area around the given point over all points; physically_valid_parameters reports exactly the points at which the charge distribution is valid, with its rank by energy. Malformed sweeps are rejected with std::invalid_argument.",
     ["inputs", "schedules"], "for all gates, sweeps, truth tables, thread counts and sets of random samples",
     "The tests run three published gates on fixed sweeps and compare totals; the shapes of operational areas (thin, diagonal, at the border, several islands) and the truth per point are not examined.",
     [A + "simulation/sidb/operational_domain.hpp", A + "simulation/sidb/operational_domain_ratio.hpp", A + "simulation/sidb/physically_valid_parameters.hpp", A + "simulation/sidb/sidb_simulation_domain.hpp"],
     ["operational_domain_grid_search", "operational_domain_random_sampling", "operational_domain_flood_fill", "operational_domain_contour_tracing", "critical_temperature_domain_grid_search", "operational_domain_ratio", "physically_valid_parameters"],
     "property-based testing: generated gates and sweeps, truth of every grid point from an exhaustive charge-state enumeration, set relations for the sampling algorithms",
     "Completeness of contour tracing is judged in two dimensions and for areas without holes (the algorithm documents that it assumes hole-free areas). Points whose competing states are closer than the numeric tolerance are not generated.")
prop("P39", "Exact design: minimal valid layouts; clock assignment found iff one exists",
     "exact returns a layout that implements the network (function, input/output order and names), obeys the placement and routing rules, the clocking scheme (2DDWave, USE, RES, ESR, CFE, SRS, Ripple, BANCS, row, columnar, hexagonal variants, open clocking with 3/4 clocks) and every option (crossings, border I/Os, straight inverters, synchronised paths unless desynchronised, area/x/y bounds, fixed size, black-listed tiles and orientations), reports its true statistics, and has no more tiles than any layout that satisfies the same options; if such a layout is known to exist, exact finds one. Minimising wires or crossings never yields more of them than a known layout of the same size. determine_clocking succeeds exactly if the layout can be clocked; then every connection advances by one clock, on both layers; otherwise the layout keeps its clock numbers.",
     ["inputs"], "for all small networks and layouts, clocking schemes, options and black lists",
     "The tests run a few published networks and compare functions; minimality, completeness under options and black lists, and unclockable layouts are never examined.",
     [A + "physical_design/exact.hpp", A + "physical_design/determine_clocking.hpp", T + "sidb_surface_analysis.hpp"],
     ["exact", "exact_with_blacklist", "determine_clocking"],
     "property-based testing: randomly grown layouts serve as witnesses (the result must exist and be no larger), a union-find over clock potentials decides clockability",
     "Witnesses have at most 4x4 tiles and 12 tiles overall (6 for open clocking), as the cost of the SMT solver allows. Runs that hit the solver timeout are discarded. num_threads > 1 (documented as unstable) and synchronization elements are not claimed.")
prop("P40", "Graph-oriented placement: valid, equivalent layouts that honour every option",
     "graph_oriented_layout_design returns a 2DDWave layout that implements the given network of gates with up to two inputs: same function, input and output names and order, inputs in the first row or column, outputs in the last row or column, design rules kept, one element per tile, information flowing east and south, no larger than its contents, true statistics. Every option is honoured: planar layouts have no crossings, straight-inverter requests leave no bent inverters, and continuing the search never yields a layout that is worse by the chosen objective (area, wires, crossings, area-crossing product, custom) than the first one found with the same settings and seed. The network is left as it is; larger gates and a missing custom cost function are rejected as documented. In single-threaded runs, equal seeds give equal first layouts, and small networks are always placed with the default effort. Multi-threaded (beta) runs yield valid layouts too.",
     ["inputs", "schedules"], "for all networks of gates with up to two inputs, options, seeds, and thread counts",
     "The tests place a few benchmark functions with default options; random networks, combined options and seeds are never tried.",
     [A + "physical_design/graph_oriented_layout_design.hpp", A + "path_finding/a_star.hpp", U + "placement_utils.hpp"],
     ["graph_oriented_layout_design", "graph_oriented_layout_design_params"],
     "property-based testing: random networks and option sets, judged by an own evaluation of the layout against the network",
     "Networks with at most 12 gates, timeouts of a few hundred milliseconds per case; a run that finds nothing within its timeout is only judged for tiny networks. Multithreading is documented as beta: only the validity of its results is claimed.")


prop("P41", "Files written for other tools describe exactly the given layout or result",
     "QCC, QLL and QCADesigner files, SVG drawings (cells, tiles, SiDBs), SiQAD simulation results, location/ground-state lists and CSV files of operational, displacement and defect-influence domains are well-formed for all names and contain exactly the objects of the layout or result, once each: every structure or cell with its kind, position, layer, clock zone and name, all pins of the border, bounding boxes and offsets; every charge distribution with its energy, degeneracy, validity and string of charge signs; every sample with all its parameters and its state, filtered as requested. Layouts which the format cannot express are rejected with the documented exception.",
     ["inputs"], "for all cell-level layouts and simulation results",
     "The tests compare the text of a few small layouts; names with special characters, layers, empty columns, and most cell types are never written.",
     [IO + "write_qcc_layout.hpp", IO + "write_qll_layout.hpp", IO + "write_qca_layout.hpp", IO + "write_svg_layout.hpp", IO + "write_sqd_sim_result.hpp", IO + "write_location_and_ground_state.hpp", IO + "write_operational_domain.hpp", IO + "write_defect_influence_domain.hpp", U + "xml_utils.hpp"],
     ["write_qcc_layout", "write_qll_layout", "write_qca_layout", "write_qca_layout_svg", "write_sidb_layout_svg", "write_sqd_sim_result", "write_operational_domain", "write_defect_influence_domain"],
     "property-based testing: random layouts and results are written, then read back by own strict parsers (XML, QCADesigner blocks, CSV) and compared object by object",
     "QCA layouts with up to 3 layers. The extent given in QLL headers and SVG drawings of multi-layer QCA layouts are not judged; nor are the colours and shapes of the drawings beyond the kind of a cell.")
prop("P42", "Fabrication: defect influence, displacements, random layouts, time to solution",
     "A grid search of the defect influence visits every sampled position around a layout or gate exactly once and marks it influential exactly if a defect there changes the ground state (or makes the gate stop working); random sampling and contour tracing only report true samples, end, and report their statistics; defect clearance is the largest distance of an influential position. Displacement robustness analyses every (or the requested share of) combination of allowed displacements exactly once, keeps fixed SiDBs and the surface's defects, and classifies each displaced gate by its true status; the manufacturing error probability is the share of failing displacements. Random SiDB layouts keep the skeleton, contain exactly the requested number of further SiDBs within the given area, obey the constraints on positive charges, and are pairwise different where requested. Time to solution follows its formula for exact and heuristic engines.",
     ["inputs", "schedules"], "for all layouts, gates, defects, regions, displacements, constraints and random choices",
     "The tests analyse a few published gates and compare totals; truth per position, termination of the tracing for arbitrary starts, layouts with defects and other coordinate types are not examined.",
     [A + "simulation/sidb/defect_influence.hpp", A + "simulation/sidb/defect_clearance.hpp", A + "simulation/sidb/displacement_robustness_domain.hpp", A + "simulation/sidb/random_sidb_layout_generator.hpp", A + "simulation/sidb/time_to_solution.hpp", U + "layout_utils.hpp"],
     ["defect_influence_grid_search", "defect_influence_quicktrace", "calculate_defect_clearance", "determine_displacement_robustness", "generate_random_sidb_layout", "time_to_solution"],
     "property-based testing: generated scenes, truth of every position or displacement from an exhaustive charge-state enumeration, set relations for the sampling algorithms",
     "Contour tracing is judged for truth and termination, not for completeness. Random engines of the library are unseeded, so a replay of random sampling may take other samples. The fixed SiDBs a caller lists are not claimed for the error probability.")


def manifest():
    from checks import CHECKS
    checks = []
    for p in P:
        i = p["rec"]["id"]
        assert i in CHECKS, i
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick",
                           thorough_cmd=f"python3 run.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=p["technique"], level=p["level"],
                           level_note=p["note"]))
    return dict(version=1, setup_cmd="python3 setup_check.py", checks=checks,
                not_applicable=[dict(property=r["id"], reason=why) for r, why in NA],
                notes="Every check compiles its harness from /repo's working tree; see DESIGN.md.")


def design():
    """DESIGN.md: docs/head.md, one section per property, docs/tail.md"""
    import re
    from checks import CHECKS
    out = [open(os.path.join(HERE, "docs/head.md"), encoding="utf-8").read(), "## The properties\n"]
    for p in P:
        r = p["rec"]
        cfg = CHECKS[r["id"]]
        out.append(f"### {r['id']} {r['title']}\n")
        out.append(f"*Specified*: {r['statement']} ({r['quantifier']['text']})\n")
        out.append(f"*Decided by* {p['technique']}. {p['note']}\n")
        out.append(f"*Beyond the tests*: {r['why_tests_cant']}\n")
        if cfg.get("assumptions"):
            out.append("*Assumptions*: " + "; ".join(cfg["assumptions"]) + "\n")
        rows = []
        for s in cfg["src"]:
            t = open(os.path.join(HERE, "harness", s), encoding="utf-8").read()
            for m in re.finditer(r'PBT(?:_KNOWN)?\(\s*"([^"]+)",\s*([^,]+),\s*([^,]+),\s*"([^"]+)"', t):
                rows.append(f"| {m[1]} | {m[2]} | {m[3]} | {m[4]} |")
        out.append("Harness: " + ", ".join("`harness/%s`" % s for s in cfg["src"]) + "\n")
        out.append("| sub-check | cases (quick) | cases (thorough) | non-trivial |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
    tail = open(os.path.join(HERE, "docs/tail.md"), encoding="utf-8").read()
    fixed = [x.strip() for x in open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8")]
    tail = tail.replace("@FIXED@", "\n".join("* " + x[7:] for x in fixed if x.startswith("fixed: ")))
    tail = tail.replace("@KNOWN@", "\n".join("* " + x for x in fixed if x.startswith("KF")) or "None.")
    rows = []
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)):
        mf = os.path.join(sd, d, "meta.json")
        if os.path.exists(mf):
            m = json.load(open(mf))
            rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('needs', '')} |".replace("\n", " "))
    tail = tail.replace("@SEEDED@", "| id | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows))
    out.append(tail)
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    design()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
        for r, _ in NA:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        S = "/root/.vp/"
        for p in P:
            jsonschema.validate(p["rec"], json.load(open(S + "PROPERTIES.schema.json")))
        jsonschema.validate(manifest(), json.load(open(S + "MANIFEST.schema.json")))
        print("schemas ok", len(P))
    except ImportError:
        pass
