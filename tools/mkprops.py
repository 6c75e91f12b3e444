"""Writes /verif/properties.jsonl (kept as a generator so wording stays consistent)."""
import json
P=[]
G="sidermit/city/graph.py"; D="sidermit/city/demand.py"; M="sidermit/publictransportsystem/mode.py"
PA="sidermit/publictransportsystem/passenger.py"; N="sidermit/publictransportsystem/network.py"
O="sidermit/optimization/optimizer.py"; CON="sidermit/optimization/constrains.py"
INF="sidermit/optimization/infrastructure_cost.py"; OPC="sidermit/optimization/operators_cost.py"
UC="sidermit/optimization/users_cost.py"; EG="sidermit/optimization/preoptimization/extended_graph.py"
HP="sidermit/optimization/preoptimization/hyper_path.py"; AS="sidermit/optimization/preoptimization/assignment.py"
EX="sidermit/exceptions.py"
def p(i,title,st,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(i,len(title))
    P.append(dict(id=i,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Total trips always equal the sum of the OD matrix",
 "After any sequence of building, loading and editing operations on a demand object, the reported total number of trips equals the sum of all cells of its OD matrix. A new demand object has one zero cell for every ordered pair of city nodes and a total of zero.",
 ["histories","inputs"],"every sequence of cell updates (including overwrites and rejected updates) on every city",
 "Tests look at a handful of fixed matrices; the invariant ranges over every update history.",
 [D],[("incremental update of the total next to each cell write",D+" Demand.change_vij"),("zero matrix at construction",D+" Demand.__init__")],
 [("total_trips","sum of all OD cells",D)],["Demand.get_total_trips","Demand.get_matrix"])
p("C02","Invalid OD cell updates are rejected and change nothing",
 "Setting a cell to a negative number of trips, or for an origin or destination that is not a node of the city, raises the matching error and leaves the matrix and the total as they were. Every valid update (existing origin and destination, non-negative trips) is accepted and changes exactly that one cell.",
 ["inputs","histories"],"every (origin, destination, trips) argument in every reachable state of a demand object",
 "Tests try one bad value per error; they do not show that no other cell changes nor that nothing is written before the check.",
 [D],[("guards before the writes",D+" Demand.change_vij")],[("matrix","OD cells",D)],["Demand.change_vij","Demand.get_matrix"])
p("C03","Parametric demand distributes exactly the requested trips with the stated split",
 "For every city with at least one zone and all valid demand parameters, the cells built from (y, a, alpha, beta) add up to y, are the same for every zone, and peripheries generate the share a. The CBD generates no trips, peripheries attract none, and a periphery sends the share alpha to the CBD, beta to its own subcenter and the rest evenly to the other subcenters; a subcenter splits its trips between the CBD and the other subcenters in the proportion alpha to 1-alpha-beta. With a single zone everything a periphery does not send to the CBD goes to its own subcenter, and all subcenter trips go to the CBD.",
 ["inputs","configurations"],"all valid y, a, alpha, beta and all numbers of zones n >= 1",
 "Tests compare a few parameter sets against precomputed numbers; conservation is an identity over all real parameters and n.",
 [D],[("per-class trip rates and the class dispatch",D+" Demand.build_from_parameters")],(),["Demand.get_matrix"])
p("C04","Demand parameters outside the documented region are always rejected",
 "Demand parameters are accepted exactly when y, a, alpha and beta are numbers with y >= 0, a in [0,1], alpha in [0,1], beta in [0,1) and alpha + beta <= 1; anything else raises the error class belonging to the violated condition. Building a demand from parameters always applies this validation before any trip is assigned.",
 ["inputs"],"all values of y, a, alpha, beta",
 "Tests sample a few out-of-range values; the accepted region and its boundaries are an input-wide statement.",
 [D],[("parameter validation",D+" Demand.parameters_validator")],(),["Demand.parameters_validator","Demand.build_from_parameters"])
p("C05","City parameters outside the documented region are always rejected",
 "City parameters are accepted exactly when n is a non-negative integer, l, g and p are non-negative, the eccentricity ratio and direction zone are given together with the ratio in [0,1] and the zone an integer in [1,n], and each optional per-zone list has n entries (angles in [0,360], radius factors >= 0). Anything else raises the error class belonging to the violated condition, and building a city from parameters applies this validation before anything is built.",
 ["inputs"],"all parameter tuples",
 "Tests sample single violations; the region is the conjunction over all entries of all lists.",
 [G],[("parameter validation",G+" Graph.parameters_validator")],(),["Graph.parameters_validator","Graph.build_from_parameters"])
p("C06","OD matrices loaded from a file or a nested list land in the right cells",
 "Every data row (origin, destination, trips) of an OD file, and entry (i, j) of a matrix given as nested lists, sets exactly the cell of that origin and destination: the i-th and j-th node of the city for nested lists. Rows without exactly three fields, non-numeric fields, non-square matrices, matrices of the wrong size, and negative entries raise a library error; only the first line of a file is skipped.",
 ["inputs"],"every OD file and every nested list",
 "Tests load a few well-formed files; the row-to-cell mapping and the rejections are stated for every content.",
 [D],[("row parsing",D+" Demand.build_from_file"),("shape checks",D+" Demand.build_from_content")],(),["Demand.get_matrix"])
p("C07","A city built from parameters has the documented nodes and reports its parameters",
 "For every valid parameter set the city has one CBD with id 0 at the origin and, for zone k = 1..n, a periphery with id 2k-1 and a subcenter with id 2k, both in zone k, of width p, at radius l+g*l and l and angle 360/n*(k-1) before asymmetries. Node and zone listings are in that order with the CBD first, and the city reports back exactly the parameters it was built from.",
 ["inputs","configurations"],"all valid parameters and all n",
 "Tests check a couple of small cities; ids, order and geometry are formulas in n and k.",
 [G],[("zone loop",G+" Graph.build_from_parameters"),("registration of zones and nodes",G+" Graph.__add_zone")],
 [("nodes/zones","ordered node and zone listings",G)],["Graph.get_nodes","Graph.get_zones","Graph.get_parameters"])
p("C08","Streets are exactly the two-way star and ring of the city",
 "For every number of zones the edges are exactly, in both directions, periphery-subcenter of each zone, subcenter-CBD of each zone, and subcenter-subcenter of each pair of neighbouring zones (a closed ring for three or more zones, one pair for two, none for one). Edge ids are distinct, no edge joins two peripheries or a periphery with the CBD, and an existence query answers true exactly for the listed directed edges.",
 ["configurations","inputs"],"all numbers of zones and all node ids",
 "Tests count edges for small n; completeness and wrap-around must hold for all n.",
 [G],[("edge construction",G+" Graph.__build_edges"),("edge legality",G+" Edge.__init__"),("lookup",G+" Graph.edge_exist")],
 [("edges","directed street edges",G)],["Graph.get_edges","Graph.edge_exist"])
p("C09","Node coordinates always agree with the stated radius, angle and asymmetries",
 "Whenever the position of a node is set or changed, its (x, y) equals its (radius, angle) in polar form, angles being in degrees; street lengths are the Euclidean distances of their end nodes. Zone angles place both nodes of the zone at the given angle, Gi and Hi multiply the subcenter and periphery radius of zone i, and the eccentricity places the CBD at ratio times the (already adjusted) radius of the subcenter of the direction zone, along its angle.",
 ["inputs","configurations"],"all asymmetry parameters in all combinations",
 "Tests exercise single asymmetries on small cities; the combination order and the consistency of the coordinate copies hold for all parameters.",
 [G],[("asymmetry steps",G+" Graph.__angles_asymmetry/__Gi_asymmetry/__Hi_asymmetry/__etha_asymmetry"),("polar conversion",G+" Graph.get_xy, Graph.get_angle"),("street lengths",G+" Graph.get_edges_distance")],
 (),["Graph.get_nodes","Graph.get_edges_distance"])
p("C10","City files describing an inconsistent city are rejected",
 "A city file is accepted only if it lists exactly one CBD (in zone 0) and, for each zone 1..n, exactly one periphery and one subcenter of that zone, all with distinct node ids, on 2n+1 node lines of seven fields with integer id and zone and a known type. Otherwise a library error is raised and no city is returned.",
 ["inputs"],"every file content in the city format",
 "Tests contain a few malformed files; the rejection must hold for every combination of counts and ids.",
 [G],[("line checks",G+" Graph.__pajekfile_to_dataframe"),("zone census",G+" Graph.build_from_content"),("duplicate ids",G+" Graph.__add_nodes")],
 (),["Graph.build_from_content","Graph.build_from_file"])
p("C11","City export and import agree on the meaning of every column",
 "The city export lists every node once under a header stating the number of nodes, with id, name, x, y, type, zone and width in this order, and the import assigns each of these columns to the same attribute of the node it builds, with radius and angle derived from x and y. Exported node types are the types the import turns into the same kind of node, and a city rebuilt from content reports parameters (n, mean radii, angles, factors) that describe its nodes.",
 ["inputs","configurations"],"every city with positive radii and every accepted file",
 "Round-trip tests use one or two symmetric cities, in which swapped columns or kinds can coincide.",
 [G],[("writer",G+" Graph.export_graph"),("reader",G+" Graph.__pajekfile_to_dataframe, Graph.build_from_content")],(),
 ["Graph.export_graph","Graph.build_from_content","Graph.get_parameters"])
p("C12","Exported OD and route tables carry every entry under its own column",
 "The OD export contains every cell of the matrix exactly once as (origin, destination, trips) in the layout the OD loader reads, and the route export contains every registered route exactly once with id, mode name and the four sequences each under its own heading, in the text form that converts back to the same node lists.",
 ["inputs","histories"],"every demand and every network",
 "Tests write files but check few of their contents.",
 [D,N],[("OD writer",D+" Demand.matrix_to_file"),("route writer",N+" TransportNetwork.routes_to_file"),("sequence text form",N+" Route.sequences_to_string/sequences_to_list")],(),
 ["Demand.matrix_to_file","TransportNetwork.routes_to_file"])
p("C13","Mode and passenger attributes can never hold an invalid value",
 "Every write of a transport mode or passenger attribute, at construction or later, is checked: a missing value or one outside the documented range (negative costs, times, penalties, capacities, frequencies or number of lines; non-positive vehicle or walking speed; regularity outside [0,1]; boarding type other than 0/1) raises that attribute's own error and keeps the previous value. Every valid value is stored under the attribute it was given for; the maximum and initial frequency given at construction are per line and are stored multiplied by the number of parallel lines.",
 ["inputs","histories"],"every attribute, every value, at construction and after any number of later writes",
 "Tests set some attributes to some invalid values; pairing of each attribute with its own check, error and storage is a statement over all attributes and values.",
 [M,PA],[("validated properties",M+" mode_property, TransportMode"),("validated properties",PA+" passenger_property, Passenger")],(),
 ["TransportMode attributes","Passenger attributes"])
p("C14","The mode registry keeps names unique and aligned and enforces the 1-or-2 rule",
 "After any sequence of additions and removals in the mode registry, the list of names and the list of modes match position by position, names are unique, lookup by name returns the mode registered under it, and failed operations change nothing. A set of modes is accepted for assignment exactly when it has one mode, or two modes of which at least one has a single parallel line; otherwise a library error is raised.",
 ["histories","inputs"],"every sequence of registry operations",
 "Tests apply a few add/remove sequences.",
 [M],[("parallel lists",M+" TransportModeManager.add_mode/remove_mode/get_mode"),("1-or-2 modes rule",M+" TransportModeManager.is_valid_to_assignment_step")],
 [("names/modes","parallel registries",M)],["TransportModeManager.get_mode","TransportModeManager.get_modes_names"])
p("C15","Custom routes are accepted only if both directions form a valid closed service",
 "A user-defined route is created only if an id and a valid mode are given, both directions have non-empty node and stop sequences, each direction ends where the other begins, every stop lies on the node sequence of its direction with the first and last stop at its ends, and no direction visits a node twice. Otherwise a library error is raised; an accepted route keeps exactly the sequences given, forward and return not exchanged.",
 ["inputs"],"all ids, modes and sequences",
 "Tests try single violations, mostly in one direction.",
 [N],[("route validation",N+" Route.__init__, parameters_validator, stops_validator, direction_validator, sequences_validator")],(),["Route"])
p("C16","A network only ever registers distinct routes that run on existing streets",
 "A route is registered only if every consecutive pair of nodes of its forward and of its return sequence is a street of the city, its id is not yet registered, and the network still satisfies the mode rule with the route's mode; otherwise a library error is raised and routes, ids and modes stay as they were. A registered route is found under its id, and its mode is listed once among the modes of the network.",
 ["inputs","histories"],"every route object in every reachable network",
 "Tests register valid routes and few invalid ones, never a route whose return direction alone is impossible.",
 [N],[("street check",N+" TransportNetwork.__edges_validator"),("registration",N+" TransportNetwork.add_route, add_transport_mode")],
 [("routes/ids/modes","registries of the network",N)],["TransportNetwork.add_route","TransportNetwork.get_routes"])
p("C17","Removing routes or modes removes exactly those and keeps the registry consistent",
 "Removing a route removes exactly the route with that id from the routes and ids and nothing else, and raises an error if there is none. Removing a mode removes the mode and every route that uses it, whatever their number and order, and leaves all other modes and routes registered; ids and routes stay aligned position by position.",
 ["histories","inputs"],"every network and every removal sequence",
 "Tests remove a mode from a network with few routes, where neighbouring routes of the same mode do not occur.",
 [N],[("removal",N+" TransportNetwork.remove_route, remove_transport_mode, get_route")],(),["TransportNetwork.get_routes","TransportNetwork.get_route"])
p("C18","Predefined circular, feeder and radial routes are the documented services",
 "For every city: circular routes visit all subcenters in zone order and back to the first, one route per sense, each served in one direction only; feeder routes join each periphery with its subcenter; radial routes join each periphery (or subcenter when short) with the CBD through the subcenter, stopping everywhere or, when express, only at the ends. The return direction is the reverse of the forward one, one route per zone, each with an id distinct from those of all other predefined routes of the city; a non-mode argument, or a circular request in a city with fewer than two zones, is rejected.",
 ["configurations","inputs"],"all cities, modes and options",
 "Tests check a few zones of small cities for some options.",
 [N],[("route generators",N+" get_circular_routes, get_feeder_routes, get_radial_routes")],(),["TransportNetwork.get_radial_routes"])
p("C19","Predefined diametral and tangential routes join the right zones for every jump",
 "For every city with n zones and integer jump in 1..n/2, diametral and tangential routes join zone k with zone k+jump (cyclically), through the CBD or through the subcenters of all zones in between, from periphery to periphery or subcenter to subcenter when short, stopping everywhere or, when express, only at the ends; the return direction is the exact reverse. Every pair of zones is served once (half as many routes when jump is exactly n/2), ids are distinct, and any other jump is rejected.",
 ["configurations","inputs"],"all n, jumps and options",
 "Tests check particular n and jump; the wrap-around and half-circle cases range over all n.",
 [N],[("route generators",N+" get_diametral_routes, get_tangencial_routes")],(),["TransportNetwork.get_diametral_routes","TransportNetwork.get_tangencial_routes"])
p("C20","The extended network has the right stops and links for every route",
 "For every set of routes, there is one city node per city node, one stop per (city node, mode) served by some route, and one route node per stop visit of each direction, chained in stop order (closing the cycle for circular routes). Each stop has an access link both ways to its city node, a boarding link to each route node except at the last stop of a non-circular direction, an alighting link from each route node except at the first, and each route node is linked from its predecessor.",
 ["configurations","inputs"],"all cities and sets of routes",
 "Tests count nodes and edges on a few small networks.",
 [EG],[("builders",EG+" build_city_nodes, build_tree_graph, build_stop_nodes, build_route_nodes, build_extended_graph_nodes, build_*_edges")],(),
 ["ExtendedGraph.get_extended_graph_nodes","ExtendedGraph.get_extended_graph_edges"])
p("C21","Extended link times and frequencies carry the right quantity and unit",
 "Access links take the mode's technological access time in hours, alighting links the transfer penalty in hours, boarding links no time, and route links the street distance actually travelled between the two stops (through every intermediate node, stopped at or not) divided by the mode speed. A boarding link has the route frequency per parallel line, with the mode's initial frequency as default, and every other link infinite frequency.",
 ["configurations","inputs"],"all cities, routes, stop patterns and frequencies",
 "Tests compare a few link values; express patterns skipping nodes that no route stops at are not covered.",
 [EG],[("edge builders",EG+" build_access_edges, build_boarding_edges, build_alighting_edges, build_route_edges, __init__")],(),["ExtendedGraph.get_extended_graph_edges"])
p("C22","Unconnected OD pairs and invalid mode sets never reach assignment",
 "Computing strategies for a demand first checks every OD pair with trips: if some pair has no connection from origin to destination, or the network does not satisfy the 1-or-2 modes rule, a library error is raised and no result is produced. Otherwise every OD pair with trips, and no other, gets strategies, labels, successors and its own number of trips. The elemental paths of a pair are exactly the chains of successors from a stop of the origin to the destination.",
 ["inputs","configurations"],"all demands and networks",
 "Tests use one connected and one unconnected example.",
 [HP],[("validation",HP+" Hyperpath.network_validator"),("collection",HP+" Hyperpath.get_all_hyperpaths")],(),["Hyperpath.get_all_hyperpaths"])
p("C23","Strategy labels, successors and frequencies are updated consistently",
 "For every OD pair, processing a node only improves labels: a link without waiting replaces label and successor together when it is strictly better; a boarding link that improves the label is added to the successors with label and accumulated frequency set to the frequency-weighted combination (waiting weighted by the mode's regularity). Links touching the origin's city node are excluded, no transfer penalty is charged at the destination, access times are converted to in-vehicle-equivalent time, links with zero frequency are never boarded, the total access time of a mode is added at the origin's stops only, and the final successors of a node are those belonging to its smaller label.",
 ["inputs","configurations"],"all extended networks, passengers and OD pairs",
 "Tests compare a few labels on fixed networks.",
 [HP],[("label-setting step",HP+" Hyperpath.build_hyperpath_graph")],(),["Hyperpath.build_hyperpath_graph"])
p("C24","The trips of an OD pair are always split completely among its stops",
 "For every OD pair the shares assigned to the origin stops are between 0 and 100 and add up to 100: all trips use the only stop when there is one, and with two stops the share lost by one stop is exactly the share of the other, determined by the walking distance at which both stops are equally attractive compared with the spacing of the stops. In particular ties and boundary distances are assigned too.",
 ["inputs"],"all label pairs, widths, speeds, values of time and numbers of parallel lines",
 "Tests cover a few label/width combinations and no ties.",
 [AS],[("split",AS+" Assignment.get_assignment")],(),["Assignment.get_assignment"])
p("C25","Passenger loading conserves flow and is reported per vehicle",
 "Loading follows every successor of a strategy from each used origin stop to the destination: at a stop passengers split over the attractive lines proportionally to frequency, elsewhere they all continue. Boarding, alighting and section loads are counted on the line, direction and stop where they occur, each divided by the frequency of its line exactly once, and the most loaded section of a line is the maximum over both directions.",
 ["inputs","configurations"],"all strategies, trip matrices and frequencies",
 "Tests sum a few loads on fixed networks.",
 [AS],[("loading",AS+" Assignment.get_alighting_and_boarding"),("maximum",AS+" Assignment.most_loaded_section")],(),["Assignment.get_alighting_and_boarding"])
p("C26","Cycle times and operators cost cover every section, stop and active line once",
 "The running time of a line is the length of every street of both directions divided by the mode speed; the cycle time adds, for each stop and direction, boarding plus alighting time for sequential modes and the larger of the two for simultaneous modes, per vehicle, in hours. The operators cost is the sum over lines with non-zero frequency of (cost per vehicle + cost per seat * capacity) * frequency * cycle time.",
 ["inputs","configurations"],"all networks, loads and frequencies",
 "Tests check single networks to two decimals.",
 [OPC],[("cost formulas",OPC+" OperatorsCost.lines_travel_time, get_cycle_time, get_operators_cost")],(),["OperatorsCost"])
p("C27","Infrastructure is charged once per street and mode, for active lines only",
 "The infrastructure of a mode is the total length of the streets used, in any direction, by at least one of its lines with non-zero frequency, each street counted once however many lines or directions use it, times the number of parallel lines. The infrastructure cost is the sum over modes of that length times the mode's cost per length.",
 ["inputs","configurations"],"all networks and frequencies",
 "Tests use networks with few overlapping lines.",
 [INF],[("street census",INF+" InfrastructureCost.get_mode_network_distance"),("cost",INF+" get_infrastruture_cost")],(),["InfrastructureCost"])
p("C28","User resources are weighted by passengers and charged with the right value",
 "Access, waiting and in-vehicle time and transfers are sums over all passengers: every contribution is multiplied by the passengers experiencing it and is in hours (transfers are counted). Waiting depends on the regularity and combined frequency per line of the attractive lines, dwell time on the loads of the direction actually travelled, transfers on alighting anywhere but at the destination; the users cost prices each resource with its own social value.",
 ["inputs","configurations"],"all strategies, loads, frequencies and passengers",
 "Tests check one or two totals on symmetric networks, where weights and directions coincide.",
 [UC],[("resources",UC+" UsersCost.resources_consumer"),("pricing",UC+" UsersCost.get_users_cost")],(),["UsersCost.resources_consumer","UsersCost.get_users_cost"])
p("C29","Every line and every street-mode pair has its capacity constraint",
 "The constraint vector has one entry per line, its most loaded section minus the vehicle capacity of its mode, followed by one entry per directed street and mode, the summed frequency per parallel line of the active lines of that mode running over the street in that direction minus the mode's maximum frequency per parallel line. A solution is within limits exactly when no entry is positive; the optimiser bounds all entries above by zero and all frequencies below by zero.",
 ["inputs","configurations"],"all networks and frequency vectors",
 "Tests count entries on small networks.",
 [CON,O],[("constraints",CON+" Constrains"),("assembly and bounds",O+" Optimizer.get_constrains, constrains, internal_optimization")],(),["Optimizer.get_constrains"])
p("C30","The objective is the sum of the three costs of the same frequency vector",
 "Entry i of the decision vector is the frequency of the i-th registered line everywhere it is used; the objective is operators plus infrastructure plus users cost, all evaluated with loads, capacities and frequencies derived from that same vector. Vehicle capacity is the most loaded section of the line, and initial frequencies are the given ones or the mode's default.",
 ["inputs"],"all decision vectors",
 "Tests evaluate a few points.",
 [O],[("objective",O+" Optimizer.VRC, operators_cost, infrastructure_cost, user_cost"),("vector mapping",O+" Optimizer.f0, fopt_to_f, get_k")],(),["Optimizer.VRC"])
p("C31","Only feasible converged solutions are returned, and the search always ends",
 "A solution is returned only if it comes from a converged run, violates no constraint beyond tolerance and has no negative frequency, and it is the one with the least objective among all such runs; otherwise a library error is raised. The outer loop stops as soon as frequencies change less than the tolerance or the given number of re-optimisations is used up, and each new run builds its strategies from the previous frequencies.",
 ["histories","inputs"],"all sequences of inner results",
 "Tests run the optimiser once on small cases; inner failures and non-convergence are not produced.",
 [O],[("selection",O+" Optimizer.get_better_result, status_optimization"),("outer loop",O+" Optimizer.external_optimization, external_optimization_tolerance, f_distance")],(),["Optimizer.external_optimization","Optimizer.network_optimization"])
p("C32","The line report covers every line once, including unused ones",
 "After an optimisation the line report has exactly one row per registered line, with frequency, frequency per parallel line, capacity, fleet = frequency * cycle time, cycle time in minutes, operator cost per passenger and section loads over the node sequence of each direction relative to capacity; unused lines and lines without passengers are reported with zeros instead of failing. The text and file reports contain those same rows, and asking before there is a solution raises a library error.",
 ["inputs","configurations"],"all networks and solutions",
 "Tests report networks in which every line is used in both directions.",
 [O],[("report",O+" Optimizer.get_network_results, string_network_results, write_file_network_results")],(),["Optimizer.get_network_results"])
p("C33","The overall report is consistent with the costs and resources it summarises",
 "The overall report gives each cost divided by total trips, with the objective equal to the sum of the three costs, resources per passenger in minutes (transfers as counts), and per mode the fleet, the mean capacity and the number of parallel lines over exactly its lines with positive frequency. Every figure is computed from the network re-evaluated at the reported solution and printed under its own label; asking before there is a solution raises a library error.",
 ["inputs","configurations"],"all networks and solutions, with a positive number of trips",
 "Tests print the report without checking its figures.",
 [O],[("report",O+" Optimizer.get_overall_results, string_overall_results, last_iteration")],(),["Optimizer.get_overall_results"])
p("C34","Invalid use is always reported as a library error, never swallowed",
 "Every error the package raises deliberately is an instance of the library's base exception, in the branch of the part that raises it, and no handler in the package discards or replaces an error other than converting a parse failure into a library error. Each error condition raises rather than returns an exception object or a silent default.",
 ["programs","inputs"],"every raise and every handler in the package",
 "Tests trigger some errors; the statement ranges over all raise sites and handlers.",
 [EX,G,D,M,PA,N,O,HP],[("exception hierarchy",EX)],(),["SIDERMITException"])
p("C35","Evaluating, querying, exporting and optimising never modify the model",
 "Computing costs, strategies, loads, constraints, reports, exports, predefined routes, queries and plots never changes the city, demand, passenger, modes, routes or network given to them, nor the frequency table or result passed in. Repeating an evaluation with the same arguments therefore gives the same result.",
 ["histories","inputs"],"every order and number of evaluations and queries",
 "Tests call each evaluation once on fresh objects.",
 [G,D,M,N,O,CON,INF,OPC,UC,EG,HP,AS],[("side-effect discipline of the evaluation layer",O+", "+UC+", "+AS)],(),["Graph.get_parameters","TransportNetwork.get_routes","Demand.get_matrix"])
p("C36","Independent objects never share mutable state",
 "Two cities, demands, networks, mode registries, passengers or optimisers created independently never influence each other: no mutable default argument, module-level or class-level object is modified or handed out as an object's own state. Default modes and passengers are new objects on every request.",
 ["histories","programs"],"all sequences of operations on any number of objects",
 "Tests build objects in separate test cases and never compare aliasing.",
 [G,D,M,PA,N,O,EG,HP,AS],[("per-instance initialisation",G+", "+D+", "+N+", "+M)],(),["constructors"])
p("C37","The reported solution is the global optimum of the design problem",
 "The frequencies returned minimise the total cost over all feasible frequencies up to the tolerance.",
 ["inputs"],"all networks and demands","Tests compare with single known values; optimality is a statement over a continuum.",
 [O],[("trust-constr minimisation",O+" Optimizer.internal_optimization")],(),["Optimizer.network_optimization"])
p("C38","The strategy computed for an OD pair minimises its expected generalised time",
 "No other set of attractive lines gives a smaller expected generalised travel time than the computed strategy for any OD pair.",
 ["inputs","configurations"],"all extended networks","Tests compare labels on fixed networks.",
 [HP],[("label-setting algorithm",HP+" Hyperpath.build_hyperpath_graph")],(),["Hyperpath.get_hyperpath_OD"])
p("C39","Exported cities and matrices reload to bit-identical numbers",
 "Writing a city or OD matrix and loading it again gives back the same floating-point numbers for coordinates, widths and trips.",
 ["inputs"],"all floating-point values","Tests round-trip a few decimal values.",
 [G,D],[("text conversion",G+" Graph.export_graph, "+D+" Demand.matrix_to_file")],(),["Graph.export_graph"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
