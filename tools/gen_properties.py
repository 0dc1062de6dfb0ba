#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) call per property."""
import json, os
OUT = []
I = 'include/fiction/'
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    OUT.append(dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                 state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                                 observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- foundations
P('C01', 'Coordinates encode, order, convert and compute consistently',
  'Packing any coordinate into its integer form and unpacking it gives the same coordinate back (dead flag included), and the live coordinates of each of the three coordinate systems are strictly and totally ordered in their documented dimension order, consistently with equality. '
  'For live coordinates, conversions between the SiQAD, cube and offset systems are lossless, order preserving and mutually inverse for all signs and parities (saturating, never wrapping, at the ends of the range), and killing a coordinate changes nothing but its liveness. '
  'Sums and differences obey the arithmetic of the lattice (associative, commutative, difference inverts sum), and area and volume count the positions of the box spanned with the origin.',
  ['inputs'], 'every coordinate, pair and triple of coordinates of every system, including negative ones, both sublattices and range ends',
  'The tests compare a dozen hand-picked coordinates; parity, sign and range-end combinations of two or three coordinates are not covered.',
  [I+'layouts/coordinates.hpp'],
  [('packing constructor and integer conversion', I+'layouts/coordinates.hpp: offset::ucoord_t'),
   ('relational operators', I+'layouts/coordinates.hpp: ucoord_t/coord_t::operator<'),
   ('lattice conversion', I+'layouts/coordinates.hpp: siqad::to_fiction_coord, siqad::to_siqad_coord, offset_to_cube_coord'),
   ('area and volume', I+'layouts/coordinates.hpp: area, volume')],
  observe=['return values of the coordinate operators and conversions'])

P('C02', 'Coordinate iteration visits every position of a box once, in order',
  'Iterating the coordinates of a bounding box from any start position visits every position of the box from that start on exactly once and in ascending order, then ends in the dead coordinate; a start beyond one dimension carries into the next one as documented, and a negative start is clamped to zero. '
  'This holds for each coordinate system and for boxes that are degenerate in any dimension. '
  'Pre- and post-increment agree, copies of an iterator advance independently, and two iterators are equal exactly when they designate the same position.',
  ['inputs', 'histories'], 'all boxes and all start positions inside, outside and below the box, and all increment sequences on iterators and copies',
  'Tests iterate three boxes and compare totals; degenerate boxes, carried starts and copies are not enumerated.',
  [I+'layouts/coordinates.hpp'],
  [('carry and termination', I+'layouts/coordinates.hpp: ucoord_t::wrap, cube::coord_t::wrap, siqad::coord_t::wrap'),
   ('iterator', I+'layouts/coordinates.hpp: coord_iterator')],
  observe=['sequence of dereferenced iterators'])

P('C03', 'Aspect-ratio enumeration yields each factorisation exactly once',
  'Enumerating aspect ratios from n tiles yields, for each area from n upwards in increasing order, every width x height factorisation of that area in both orientations exactly once and nothing else. '
  'Every yielded box contains exactly the number of tiles announced for it. '
  'Copies of an enumeration (including those made by post-increment) are independent of their original, survive it, and compare consistently with the enumeration order.',
  ['inputs', 'histories'], 'all start values up to a bound, all prefix lengths, and all interleavings of increments, copies, post-increments and comparisons on up to three enumerations',
  'Two start values are tested, squares and primes are not systematically covered, and copies are never advanced independently.',
  [I+'algorithms/iter/aspect_ratio_iterator.hpp'],
  [('factorisation', I+'algorithms/iter/aspect_ratio_iterator.hpp: factorize, next'),
   ('increment and comparison', I+'algorithms/iter/aspect_ratio_iterator.hpp: operator++, operator<')],
  observe=['sequence of dereferenced iterators'])

P('C04', 'Gray-code enumeration visits each code once with one-bit steps',
  'Starting from any number, successive values are the binary-reflected Gray codes of successive integers: adjacent values differ in exactly one bit and over any aligned power-of-two window each code appears exactly once. '
  'Random access, increments, decrements, offsets, differences and comparisons all agree with the position in the sequence, so any sequence of moves ends at the code of the resulting position. '
  'Copies are independent of each other.',
  ['inputs', 'histories'], 'all start positions and windows up to a bound, and all sequences of iterator operations up to a depth',
  'There is no unit test of the iterator; it is only exercised indirectly by exhaustive simulation on a few layouts.',
  [I+'algorithms/iter/gray_code_iterator.hpp'],
  [('code computation', I+'algorithms/iter/gray_code_iterator.hpp: binary_to_gray'),
   ('random access arithmetic', I+'algorithms/iter/gray_code_iterator.hpp: operator+=, operator-, operator<')],
  observe=['dereferenced values', 'differences and comparisons of iterators'])

P('C05', 'Simulated annealing returns the best state it visited',
  'For every outcome of the acceptance draws and every neighbour function, the returned state is one the search really visited, the returned cost is the cost of exactly that state, and no visited state (the initial one included) is cheaper. '
  'The walk only ever moves from the current state to a proposed neighbour: improvements are always taken, and a worse proposal is taken exactly when the draw falls below the acceptance probability for the current temperature (one whose acceptance probability is negligible may be dismissed without a draw). '
  'The number of proposals per temperature and the temperatures visited follow the given cycle count and cooling schedule from the initial to the final temperature.',
  ['inputs', 'histories'], 'all sequences of neighbour choices and acceptance outcomes up to a length, all small cost tables, all supplied schedules',
  'Tests run real random walks on two functions and accept any result within a tolerance; accept/reject histories cannot be forced.',
  [I+'algorithms/optimization/simulated_annealing.hpp'],
  [('acceptance and best-state tracking', I+'algorithms/optimization/simulated_annealing.hpp: simulated_annealing'),
   ('cooling schedules', I+'algorithms/optimization/simulated_annealing.hpp: linear_temperature_schedule, geometric_temperature_schedule')],
  observe=['calls received by the neighbour, cost and schedule functions', 'returned pair'])

P('C06', 'Parallel annealing is race free and returns the best instance',
  'Running several annealing instances in parallel gives, under every thread schedule, the cheapest of the results of the individual instances with its matching state. '
  'Every one of the requested instances runs exactly once from the given initial state domain and all of them have finished before the call returns. '
  'No two threads access shared library state without synchronisation.',
  ['schedules'], 'all schedules of the worker threads up to a preemption bound, for small instance counts',
  'Unit tests run whichever schedule the machine produces and cannot observe unsynchronised accesses.',
  [I+'algorithms/optimization/simulated_annealing.hpp'],
  [('instance fan-out and reduction', I+'algorithms/optimization/simulated_annealing.hpp: multi_simulated_annealing')],
  observe=['memory accesses and synchronisation of all threads', 'returned pair'])

P('C07', 'Combinatorial helpers enumerate completely and count exactly',
  'Binomial coefficients are exact whenever the result is representable and zero when more elements are chosen than exist. '
  'The distributions of k entities on n positions are exactly the k-element subsets, each once and in ascending order, and Cartesian products list each tuple once, the last dimension varying fastest. '
  'The generic combination and permutation visitors call the visitor once for each arrangement they promise, stop as soon as it asks them to, and leave the sequence as they found it when they run to completion.',
  ['inputs'], 'all n and k up to a bound, all small list-of-lists shapes including empty ones, all range splits and early-exit points',
  'Tests cover four or five fixed sizes and no early exits or representable extremes.',
  [I+'utils/math_utils.hpp', I+'utils/combination_utils.hpp', 'vendors/combinations/combinations.h'],
  [('binomial and Cartesian products', I+'utils/math_utils.hpp: binomial_coefficient, cartesian_combinations, determine_all_combinations_of_distributing_k_entities_on_n_positions'),
   ('combination visitors', 'vendors/combinations/combinations.h')],
  observe=['returned lists', 'visitor calls'])

P('C08', 'Equal values hash equally and value types compare as equivalences',
  'For coordinates, cell ports, port positions and directions, defects and the containers built from them, values that compare equal have equal hashes, and equality is reflexive, symmetric and transitive. '
  'Ordering operators, where present, are strict weak orders consistent with that equality. '
  'Hashes documented as order-independent do not depend on the order of insertion.',
  ['inputs'], 'all pairs and triples over small value domains of each type, all insertion orders',
  'Unit tests never compare hashes and check equality on single examples.',
  [I+'utils/hash.hpp', I+'layouts/coordinates.hpp', I+'technology/cell_ports.hpp', I+'technology/sidb_defects.hpp', I+'algorithms/simulation/sidb/sidb_simulation_parameters.hpp'],
  [('hash specialisations', I+'utils/hash.hpp; coordinates.hpp; cell_ports.hpp'), ('comparison operators', I+'technology/cell_ports.hpp, sidb_defects.hpp')],
  observe=['hash values and comparison results'])

P('C09', 'Searchable priority queue and lookup helpers match their contracts',
  'The searchable priority queue behaves like a priority queue under every operation sequence: popping yields elements in priority order with none lost or duplicated, and search finds an element exactly when it is enqueued. '
  'The subsequence search reports the earliest position where either of the two sought items begins and the end of the range otherwise, on ranges of any length including empty ones. '
  'Tolerant map lookup finds an entry exactly when a key lies within tolerance, and array conversions preserve content and order.',
  ['inputs', 'histories'], 'all operation sequences up to a depth over a small alphabet; all short sequences over a small alphabet',
  'These helpers have few or no direct tests (empty ranges and interleaved push/pop/search are untested).',
  [I+'utils/stl_utils.hpp', I+'utils/map_utils.hpp', I+'utils/array_utils.hpp'],
  [('queue', I+'utils/stl_utils.hpp: searchable_priority_queue'), ('two-element search', I+'utils/stl_utils.hpp: find_first_two_of'),
   ('tolerant lookup', I+'utils/map_utils.hpp: find_key_with_tolerance'), ('array helpers', I+'utils/array_utils.hpp')],
  observe=['return values'])

P('C10', 'CSV writing emits exactly the given fields, one record per call',
  'Each line written consists of the given values in order, separated by single commas and terminated by exactly one newline, with no text lost, added or carried over between lines. '
  'Booleans, numbers, strings and formatted values appear as their textual value. '
  'This holds for any sequence of lines with any number of fields.',
  ['inputs', 'histories'], 'all sequences of lines up to a depth, with all field counts and kinds up to a bound',
  'One test writes a few fixed lines.',
  [I+'io/csv_writer.hpp'], [('line writing', I+'io/csv_writer.hpp: csv_writer::write_line')], observe=['the stream written to'])

P('C11', 'SiDB charge states, defects and lattice constants classify consistently',
  'Charge states and signs convert into each other without loss (values beyond the range saturate to none of the valid ones), and a configuration string lists one symbol per SiDB. '
  'Every kind of defect except the absent one is exactly one of charged or neutral, an absent defect is charged only if it carries a charge, and the spacing a defect demands grows with the kind of influence it exerts. '
  'Lattice vectors and simulation parameters given by the user are the ones used.',
  ['inputs'], 'all charge states and signs, all defect kinds and charges, all combinations of perturbed parameters',
  'Tests sample a subset of defect kinds and one parameter set.',
  [I+'technology/sidb_charge_state.hpp', I+'technology/sidb_defects.hpp', I+'technology/sidb_lattice_orientations.hpp', I+'algorithms/simulation/sidb/sidb_simulation_parameters.hpp'],
  [('conversion', I+'technology/sidb_charge_state.hpp'), ('classification and extent', I+'technology/sidb_defects.hpp: is_charged_defect_type, is_neutral_defect_type, defect_extent'),
   ('parameters', I+'algorithms/simulation/sidb/sidb_simulation_parameters.hpp')],
  observe=['return values'])

P('C12', 'Potential-to-distance conversion is the tightest inverse on its grid',
  'For every parameter set, precision and potential, the returned distance is the smallest multiple of the precision at which the screened Coulomb potential does not exceed the given one. '
  'The result therefore never increases when the potential grows, and never decreases when the physical parameters strengthen the interaction. '
  'The conversion always terminates, for potential zero at the first grid distance where the interaction is no longer representable.',
  ['inputs'], 'a full grid of potentials, precisions and physical parameter values',
  'Tests check three potentials with one parameter set.',
  [I+'algorithms/simulation/sidb/potential_to_distance_conversion.hpp'],
  [('search over the distance grid', I+'algorithms/simulation/sidb/potential_to_distance_conversion.hpp: potential_to_distance_conversion')],
  observe=['returned distance'])

P('C13', 'Graph coloring is always proper and exact where promised',
  'On every graph, every coloring engine assigns each vertex exactly one color such that no edge joins equal colors, for every outcome of its internal random choices. '
  'An engine that is limited to a number of colors or iterations may give up, and then returns nothing rather than an improper coloring; every engine terminates. '
  'Engines that promise exactness, and heuristics on the graph classes where they are known to be optimal, use the minimum number of colors. '
  'Reported color counts and most-frequent-color information agree with the coloring itself.',
  ['inputs', 'histories'], 'all graphs up to a vertex bound, all engines, all random choice outcomes up to a bound',
  'Tests color a handful of fixed graphs with whatever random numbers occur.',
  [I+'algorithms/graph/graph_coloring.hpp', 'vendors/graph-coloring/Source', 'vendors/graph-coloring/Header'],
  [('engines', 'vendors/graph-coloring/Source/*.cpp'), ('validity check', 'vendors/graph-coloring/Source/coloring_algorithm.cpp'),
   ('SAT engine and wrapper', I+'algorithms/graph/graph_coloring.hpp: determine_vertex_coloring')],
  observe=['colorings returned'])

P('C14', 'The vendored undirected graph keeps adjacency consistent',
  'Under every history of vertex and edge insertions and removals, adjacency stays symmetric, an edge exists exactly when it was inserted and neither it nor one of its ends was removed since, and vertex and edge counts agree with what iteration yields. '
  'Data attached to vertices and edges stays with them. '
  'Iterating visits each live vertex and edge exactly once.',
  ['histories'], 'all operation sequences up to a depth over a few vertices',
  'The library is vendored without tests in this repository.',
  ['vendors/undirected_graph/source/undirected_graph.h', 'vendors/undirected_graph/source/undirected_pair.h', 'vendors/undirected_graph/source/graph_search_iterator.h'],
  [('graph container', 'vendors/undirected_graph/source/undirected_graph.h')], observe=['iteration, lookup and counts'])

# -------------------------------------------------------------------- layouts
P('C15', 'Layout topology is symmetric and stays within bounds',
  'In every topology (Cartesian, shifted Cartesian, all four hexagonal orientations) with every coordinate system, the direction queries are mutual inverses: the neighbour in one direction has the original tile as its neighbour in the opposite direction wherever both exist, and a tile at the border is its own neighbour there. '
  'Adjacency sets contain exactly the existing in-plane neighbours without duplicates, adjacency is symmetric, and border tests agree with neighbour existence. '
  'Enumerating tiles and ground tiles visits each position of the layout exactly once, and resizing changes nothing but the extent.',
  ['inputs', 'configurations'], 'all topologies, coordinate systems, sizes up to a bound, and all tiles of them',
  'Tests check a few tiles of one size per topology.',
  [I+'layouts/cartesian_layout.hpp', I+'layouts/hexagonal_layout.hpp', I+'layouts/shifted_cartesian_layout.hpp'],
  [('neighbour functions', I+'layouts/cartesian_layout.hpp, hexagonal_layout.hpp, shifted_cartesian_layout.hpp'), ('enumeration', I+'layouts/cartesian_layout.hpp: foreach_coordinate, foreach_ground_coordinate')],
  observe=['neighbour queries and enumerations'])

P('C16', 'Clocking schemes and clocked layouts agree on information flow',
  'A scheme assigns every tile a clock number below its number of phases, periodic in its cutout, and an override of a tile changes that tile alone. '
  'Incoming and outgoing clocked zones are exactly the adjacent tiles whose clock number precedes or follows that of the tile, so one tile lists another as outgoing exactly when the other lists it as incoming, and zone degrees equal the sizes of these sets. '
  'Looking a scheme up by any documented name gives that scheme, and feed-forward and in/out-degree promises of each scheme hold on every tile.',
  ['inputs', 'configurations', 'histories'], 'all schemes, topologies, tiles of layouts up to a size, and all short histories of overrides',
  'Tests check selected tiles of selected schemes.',
  [I+'layouts/clocking_scheme.hpp', I+'layouts/clocked_layout.hpp'],
  [('schemes', I+'layouts/clocking_scheme.hpp'), ('clocked zones', I+'layouts/clocked_layout.hpp: incoming_clocked_zones, outgoing_clocked_zones, is_incoming_clocked, is_outgoing_clocked')],
  observe=['clock numbers and zone queries'])

P('C17', 'Gate-level layouts stay consistent under any edit history',
  'After every sequence of creating, moving, connecting and clearing gates, wires, inputs and outputs, the tile-to-node mapping is one-to-one, the gate, wire, input and output counts equal what enumeration yields, and a tile is occupied exactly when something was placed there and not removed since. '
  'Fanins and fanouts mirror each other for adjacent tiles, moving a node keeps its function and name, clearing a tile removes it from the outputs and from the fanins and fanouts of others (a cleared input stays listed, as documented), and nodes placed nowhere never affect other tiles. '
  'Simulating the layout computes the function given by the gates and their connections.',
  ['histories'], 'all operation sequences up to a depth on small layouts over a small alphabet of operations',
  'Tests exercise a few fixed histories; the interplay of moves, clears and re-creations is unbounded.',
  [I+'layouts/gate_level_layout.hpp'],
  [('node creation and tile assignment', I+'layouts/gate_level_layout.hpp: create_node_from_literal, assign_node'), ('move and clear', I+'layouts/gate_level_layout.hpp: move_node, clear_tile')],
  observe=['layout queries after each operation'])

P('C18', 'Cell-level layouts report exactly the cells that were placed',
  'After every sequence of assignments and removals, each position holds the type, mode and name assigned last (or nothing), the number of cells equals the number of non-empty positions, enumeration visits each of them exactly once, and a layout is empty exactly when it holds no cell. '
  'Input and output lists hold exactly the input and output cells, each once, and a cell belongs to the clock zone of the tile it lies in. '
  'Clones are independent of their original.',
  ['histories'], 'all operation sequences up to a depth over few positions and all cell types of each technology',
  'Tests place a handful of cells once.',
  [I+'layouts/cell_level_layout.hpp', I+'technology/cell_technologies.hpp'],
  [('cell storage', I+'layouts/cell_level_layout.hpp: assign_cell_type, assign_cell_mode, assign_cell_name')], observe=['layout queries'])

P('C19', 'Obstruction, synchronisation and defect layers compose faithfully',
  'A tile or connection is obstructed exactly when it was marked and not cleared since or when the underlying layout occupies it, a synchronisation element has the delay assigned last and affects clocked zones as documented, and a defect is reported exactly where it was placed. '
  'Each layer leaves the queries of the layout below unchanged. '
  'The positions sabotaged by defects are exactly those within the extent of some defect, however defects were added, moved or removed.',
  ['histories'], 'all operation sequences up to a depth on small layouts',
  'Tests exercise one history each.',
  [I+'layouts/obstruction_layout.hpp', I+'layouts/synchronization_element_layout.hpp', I+'technology/sidb_defect_surface.hpp'],
  [('obstructions', I+'layouts/obstruction_layout.hpp'), ('delays', I+'layouts/synchronization_element_layout.hpp'), ('defects', I+'technology/sidb_defect_surface.hpp')],
  observe=['layout queries'])

P('C20', 'Path finding returns valid, complete and shortest paths',
  'Every returned path starts and ends at the requested positions, takes only steps permitted by the topology or clocking, and avoids every obstructed tile and connection. '
  'A shortest-path query finds a path exactly when one exists, with minimum cost; enumerating all paths yields each simple path exactly once; and k shortest paths are distinct, loop free, sorted, and the k cheapest that exist. '
  'Distance functions never overestimate (where admissible) and equal true distances where documented.',
  ['inputs', 'configurations'], 'all small layouts, clocking schemes, obstruction sets and source/target pairs up to a bound',
  'Tests route a few fixed instances.',
  [I+'algorithms/path_finding'],
  [('search', I+'algorithms/path_finding/a_star.hpp, enumerate_all_paths.hpp, k_shortest_paths.hpp'), ('distances', I+'algorithms/path_finding/distance.hpp, distance_map.hpp')],
  observe=['returned paths and distances'])

P('C21', 'Heuristic physical design preserves the function and design rules',
  'For every input network the scalable placement-and-routing algorithm accepts, the resulting layout computes the same Boolean functions on correspondingly named inputs and outputs. '
  'It passes all design rule checks: every connection runs between adjacent, correctly clocked tiles, nothing overlaps illegally, and no gate, input or output is missing or dangling. '
  'Every parameter combination yields such a layout.',
  ['inputs', 'configurations'], 'all small networks up to a gate bound, all parameter settings',
  'Tests run a few benchmark networks.',
  [I+'algorithms/physical_design/orthogonal.hpp'],
  [('placement and routing', I+'algorithms/physical_design/orthogonal.hpp')], observe=['resulting layout'])

P('C22', 'Exact physical design finds a correct layout of minimum size',
  'A layout returned by the exact method computes the function of the network, satisfies the design rules and all user-given constraints (scheme, crossings, borders, depth limits). '
  'No smaller aspect ratio in the explored order admits a layout, and when none exists within the bounds the method says so. '
  'With several threads, the result is the same as with one, for every schedule.',
  ['inputs', 'configurations', 'schedules'], 'all small networks and parameter settings within bounds',
  'Tests run a few networks and trust the first layout found.',
  [I+'algorithms/physical_design/exact.hpp'], [('SMT encoding and search', I+'algorithms/physical_design/exact.hpp')], observe=['resulting layout or failure'])

P('C23', 'Graph-oriented layout design yields correct layouts under all effort modes',
  'Every layout returned by the search computes the function of the given network, satisfies the design rules and respects the requested clocking, border pins and crossing constraints. '
  'The returned layout has the best cost among those found, and multithreaded runs yield equally valid layouts under every schedule. '
  'When no layout is found within the limits, the failure is reported.',
  ['inputs', 'configurations', 'schedules'], 'all small networks, effort modes and options within bounds',
  'Tests run a few networks in a few modes.',
  [I+'algorithms/physical_design/graph_oriented_layout_design.hpp'], [('search', I+'algorithms/physical_design/graph_oriented_layout_design.hpp')], observe=['resulting layout or failure'])

P('C24', 'Layout conversion and optimisation preserve the function',
  'Turning a Cartesian layout into a hexagonal one, optimising a finished layout, and reducing its wiring each preserve the Boolean function of every named output and keep the design rules satisfied. '
  'Optimisation never makes the layout larger, and every input, output and gate survives. '
  'Repeating an optimisation is harmless.',
  ['inputs', 'configurations'], 'all layouts obtained from all small networks up to a gate bound, all options',
  'Tests transform a few fixed layouts.',
  [I+'algorithms/physical_design/hexagonalization.hpp', I+'algorithms/physical_design/post_layout_optimization.hpp', I+'algorithms/physical_design/wiring_reduction.hpp'],
  [('transformations', 'the three headers above')], observe=['resulting layout'])

P('C25', 'Gate library application places every gate as its tile prescribes',
  'Applying a library produces a cell-level layout in which every occupied tile holds exactly the cells of the library implementation for that gate with the port directions of its connections, at the position corresponding to the tile, and nothing anywhere else. '
  'Inputs and outputs keep their names, clock zones carry over, and rotated or mirrored gates map ports consistently. '
  'A gate for which the library has no implementation is reported rather than dropped.',
  ['inputs', 'configurations'], 'all libraries, gate types and port configurations on all tile positions of small layouts',
  'Tests apply libraries to a few layouts.',
  [I+'algorithms/physical_design/apply_gate_library.hpp', I+'technology/fcn_gate_library.hpp', I+'technology/qca_one_library.hpp', I+'technology/sidb_bestagon_library.hpp', I+'technology/inml_topolinano_library.hpp'],
  [('application', I+'algorithms/physical_design/apply_gate_library.hpp'), ('libraries', I+'technology/*_library.hpp')], observe=['cells of the resulting layout'])

P('C26', 'Design rule checking reports every violation and no spurious one',
  'For every layout and every rule that is enabled, violations are counted exactly for the tiles that break the rule. '
  'A clean layout yields none, and disabling a rule removes exactly its own reports. '
  'The totals in the report equal the entries it lists.',
  ['inputs', 'configurations'], 'all small layouts obtained by single and double mutations of clean layouts, all rule selections',
  'Tests check single hand-made violations.',
  [I+'algorithms/verification/design_rule_violations.hpp'], [('rules', I+'algorithms/verification/design_rule_violations.hpp')], observe=['reported counters'])

P('C27', 'Equivalence checking distinguishes functions and timing correctly',
  'Two designs are reported equivalent exactly when they compute the same functions on all inputs; weak versus strong equivalence is distinguished by equal versus different timing. '
  'A reported counterexample really distinguishes the two designs. '
  'Designs of different interface sizes are never reported equivalent.',
  ['inputs'], 'all pairs of small networks and layouts within bounds',
  'Tests compare a few pairs.',
  [I+'algorithms/verification/equivalence_checking.hpp', I+'algorithms/verification/virtual_miter.hpp'], [('check', I+'algorithms/verification/equivalence_checking.hpp')], observe=['verdict, counterexample'])

P('C28', 'Critical path and throughput match longest and skewed path lengths',
  'The reported critical path length is the number of tiles on the longest input-to-output path, and the throughput equals one over the largest path-length difference measured in clock cycles, plus one. '
  'Gate statistics count each gate type exactly once per occurrence. '
  'Area and bounding boxes enclose exactly the occupied tiles.',
  ['inputs'], 'all small layouts within bounds',
  'Tests check a few layouts.',
  [I+'algorithms/properties/critical_path_length_and_throughput.hpp', I+'algorithms/properties/count_gate_types.hpp', I+'layouts/bounding_box.hpp', I+'technology/area.hpp'],
  [('path analysis', I+'algorithms/properties/critical_path_length_and_throughput.hpp')], observe=['reported numbers'])

P('C29', 'Network transformations preserve function and establish their target form',
  'Fanout substitution, balancing, conversion between network types, technology mapping and removal of virtual inputs each preserve the function of every output and the names of inputs and outputs. '
  'After fanout substitution no node drives more than its permitted number of successors and all extra fanout goes through fanout nodes; after balancing all paths to a node have equal length. '
  'Checks for these forms say yes exactly when the form holds.',
  ['inputs', 'configurations'], 'all small networks up to a gate bound, all parameter settings',
  'Tests transform a few benchmark networks.',
  [I+'algorithms/network_transformation', I+'networks/technology_network.hpp'],
  [('transformations', I+'algorithms/network_transformation/*.hpp')], observe=['resulting network'])

P('C30', 'Network views enumerate and rank nodes consistently',
  'A topological view lists every live node exactly once with all fanins before it; depth views assign every node an output depends on its longest distance from the inputs, and the network depth is the maximum over the outputs. '
  'Virtual inputs map to their real counterpart and removing them merges them back. '
  'Rank edits keep every node on exactly one position of one rank, and crossing minimisation only permutes the ranks, never adds crossings, and reports the number it leaves. '
  'Colours of nodes and edges are those painted last.',
  ['inputs', 'histories'], 'all small networks and all edit histories up to a depth',
  'Tests check a few networks.',
  [I+'networks/views', I+'networks/virtual_pi_network.hpp', I+'networks/technology_network.hpp'],
  [('views', I+'networks/views/*.hpp')], observe=['enumerations and levels'])

P('C31', 'Technology networks compute the gates they create',
  'Each gate creation function yields a node whose reported type and function are those of the requested gate on its fanins in order, for every number of inputs and every complementation, and simulation composes them accordingly. '
  'Structural counts and fanout sizes agree with the connections. '
  'Gate-level layouts and networks agree on the function of each gate type.',
  ['inputs', 'histories'], 'all gate types with all fanin selections, and all construction histories up to a depth',
  'Tests create each gate once.',
  [I+'networks/technology_network.hpp', I+'layouts/gate_level_layout.hpp'], [('gate creation', I+'networks/technology_network.hpp: create_*')], observe=['node functions and types'])

# ----------------------------------------------------------------------- SiDB
P('C33', 'Charge surfaces keep energies consistent under any update history',
  'After every sequence of charge assignments, index changes, global or local potential changes, defect changes and incremental updates, the local potentials and the system energy equal those recomputed from scratch. '
  'A configuration is declared physically valid exactly when population and configuration stability hold, and the charge index and the charge assignment determine each other. '
  'Copies and clones do not share mutable state.',
  ['histories'], 'all operation sequences up to a depth on small layouts and parameter sets, all charge configurations',
  'Tests check particular histories; incremental updates can drift only after specific sequences.',
  [I+'technology/charge_distribution_surface.hpp'], [('incremental update', I+'technology/charge_distribution_surface.hpp')], observe=['potentials, energies, validity, charge index'])

P('C34', 'Exact SiDB simulators return precisely the physically valid states',
  'Exhaustive search, the exact simulator and the cluster-based simulator each return exactly the set of physically valid charge configurations with their energies, each once, for every layout, parameter set, base and defect environment. '
  'The ground state reported is the one of minimum energy among them. '
  'Multithreaded runs return the same set under every schedule.',
  ['inputs', 'configurations', 'schedules'], 'all layouts with few SiDBs on a small grid, a grid of parameters, both bases; all schedules up to a bound',
  'Tests compare engines on a few layouts.',
  [I+'algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp', I+'algorithms/simulation/sidb/quickexact.hpp', I+'algorithms/simulation/sidb/clustercomplete.hpp'],
  [('simulators', 'the headers above')], observe=['returned charge distributions'])

P('C35', 'Heuristic SiDB simulation is sound and race free',
  'Every configuration returned by the heuristic simulator is physically valid, has the energy reported for it, and belongs to the set an exact simulator returns, for every outcome of its random choices. '
  'Under every thread schedule no shared state is accessed without synchronisation and no result is lost. '
  'The requested threads share the requested iterations evenly, each of them doing at least one.',
  ['inputs', 'schedules'], 'small layouts, all random choice outcomes up to a bound, all schedules up to a preemption bound',
  'Tests run random schedules.',
  [I+'algorithms/simulation/sidb/quicksim.hpp'], [('heuristic search', I+'algorithms/simulation/sidb/quicksim.hpp')], observe=['returned charge distributions'])

P('C36', 'Operational analysis agrees with direct simulation',
  'A gate is operational for a parameter point exactly when, for every input pattern, the ground state read at its outputs shows the specified function. '
  'Exhaustive domain computation classifies every point of the grid, the sampling and tracing strategies only report points whose status agrees with it, and ratios and statistics follow from the points. '
  'Multithreaded runs return the same domain under every schedule.',
  ['inputs', 'configurations', 'schedules'], 'small gates, coarse parameter grids, all strategies and schedules up to a bound',
  'Tests evaluate a few gates on a few grids.',
  [I+'algorithms/simulation/sidb/is_operational.hpp', I+'algorithms/simulation/sidb/operational_domain.hpp'], [('analysis', 'the headers above')], observe=['status per point'])

P('C37', 'Thermodynamic analyses follow from the energy spectrum',
  'Energy distributions, minimum energy, ground state tests, occupation probabilities and population stability computed from simulation results equal their definitions applied to the set of physically valid states. '
  'Occupation probabilities lie in the unit interval and grow with temperature, and the critical temperature is where the probability reaches the requested confidence. '
  'Degenerate and empty result sets are handled.',
  ['inputs'], 'all small energy spectra with ties, all confidence levels and temperatures of a grid',
  'Tests check a few layouts.',
  [I+'algorithms/simulation/sidb/energy_distribution.hpp', I+'algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp', I+'algorithms/simulation/sidb/critical_temperature.hpp', I+'algorithms/simulation/sidb/physical_population_stability.hpp'],
  [('analyses', 'the headers above')], observe=['returned numbers'])

P('C38', 'BDL pair, wire and input detection is complete and input patterns correct',
  'Detected pairs are disjoint, of matching type, within the distance limits and chosen nearest first; wires are maximal chains of pairs. '
  'Iterating input patterns realises each pattern exactly once, changes only the input pairs, and random access, increments and decrements agree on the realised layout. '
  'The original layout is restored for every other cell.',
  ['inputs', 'histories'], 'all small cell placements and all iterator operation sequences up to a depth',
  'Tests use a few gates.',
  [I+'algorithms/simulation/sidb/detect_bdl_pairs.hpp', I+'algorithms/simulation/sidb/detect_bdl_wires.hpp', I+'algorithms/iter/bdl_input_iterator.hpp'],
  [('detection', 'the headers above')], observe=['pairs, wires, layouts'])

P('C39', 'Gate design and robustness analyses report exactly the true results',
  'Every gate reported by automatic design is operational for the requested function, uses only canvas positions and the requested number of dots, and exhaustive design reports all of them once. '
  'Displacement and defect analyses classify each variant as direct simulation does. '
  'Results are the same under every thread schedule.',
  ['inputs', 'configurations', 'schedules'], 'tiny canvases and skeletons, all strategies, schedules up to a bound',
  'Tests design a few gates.',
  [I+'algorithms/physical_design/design_sidb_gates.hpp', I+'algorithms/simulation/sidb/displacement_robustness_domain.hpp', I+'algorithms/simulation/sidb/defect_influence.hpp'],
  [('design and analysis', 'the headers above')], observe=['returned gates and classifications'])

# ------------------------------------------------------------------------- IO
P('C40', 'Written layout files read back as the same layout',
  'Writing a layout in a format the library also reads and reading it back yields a layout with the same extent, clocking, gates or cells, connections, names and defects. '
  'Malformed or truncated input is reported as an error and never as a silently different layout. '
  'Formats that are only written list every cell exactly once with its position and type.',
  ['inputs', 'fault_sequences'], 'all small layouts up to a bound, every truncation point and single-line omission of the files',
  'Tests round-trip a few layouts.',
  [I+'io'], [('writers and readers', I+'io/write_*.hpp, read_*.hpp')], observe=['files and layouts read'])

P('C41', 'Truth-table helpers create the functions they name',
  'Every named truth-table helper yields the function its name states, for all inputs and outputs. '
  'Truth tables read from text equal those written, in order. '
  'Name lookup and network utilities are consistent with the functions.',
  ['inputs'], 'all helpers and all input patterns; all short truth-table texts',
  'Tests compare a subset.',
  [I+'utils/truth_table_utils.hpp', I+'io/tt_reader.hpp'], [('helpers', I+'utils/truth_table_utils.hpp')], observe=['truth tables'])

P('C42', 'Placement, port and name utilities of cells and tiles are consistent',
  'Port positions and directions map to each other and to tiles as documented, and the directions of a port list describe exactly its inputs and outputs. '
  'Converting between absolute and relative cell positions round-trips for every tile size and topology. '
  'Cell types and modes of each technology classify as exactly the roles they are named for.',
  ['inputs'], 'all ports, all tile sizes up to a bound, all positions, all cell types of all technologies',
  'Tests check few positions.',
  [I+'technology/cell_ports.hpp', I+'technology/cell_technologies.hpp', I+'utils/layout_utils.hpp'], [('ports', I+'technology/cell_ports.hpp'), ('cell types', I+'technology/cell_technologies.hpp'), ('positions', I+'utils/layout_utils.hpp')], observe=['return values'])

P('C43', 'Rounding, absolute values and weighted sums are exact',
  'Rounding to n decimal places returns the closest number with that many decimals, leaves integers alone, and never turns a finite number into an infinite or undefined one. '
  'The absolute value of every representable integer whose magnitude fits the type is that magnitude, for signed and unsigned types alike. '
  'The weighted sum of features adds each feature once with its own weight, for any number of features.',
  ['inputs'], 'all 8-bit and a full grid of wider integers, a grid of decimals with all roundings, all small weight vectors',
  'Tests round four numbers and take five absolute values.',
  [I+'utils/math_utils.hpp'], [('rounding and absolute value', I+'utils/math_utils.hpp: round_to_n_decimal_places, integral_abs'), ('weighted sum', I+'utils/math_utils.hpp: cost_function_chi')],
  observe=['return values'])

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(p, 'w') as f:
        for o in OUT:
            assert len(o['title']) <= 80, (o['id'], len(o['title']))
            f.write(json.dumps(o) + '\n')
    print(len(OUT), 'properties')
