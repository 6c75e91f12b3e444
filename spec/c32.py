from collections import defaultdict
from typing import List
import oracle
from sidermit.exceptions import *
from sidermit.city.graph import Node
from sidermit.publictransportsystem import Route, RouteType, TransportMode, TransportNetwork
from sidermit.optimization import Optimizer
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode

FINITE = ("f", "k", "c", "z1", "z2", "z3", "z4", "v1", "v2", "v3", "v4", "l1", "l2", "l3")


def final(self, res):
    return self.fin, self.z, self.v, self.k, self.load


def lines(self):
    return self.lines


def lengths(self):
    return oracle.lengths(self)


def travel(routes, edges):
    return oracle.travel(len(routes), edges)


def keyed(rows):
    d = defaultdict(float)
    for r, x in rows:
        d[r] = x
    return d


def tables(self, fopt):
    return keyed(self.freqs)


def times(z, v, routes, times):
    d = defaultdict(float)
    for r in routes:
        d[r.id] = r.ct
    return d


def report(self):
    return self.report


def text(self):
    return oracle.text(self)


DIVZERO = ("line", "express", "circular", "empty", "circular_back", "unused")
STUB_FOR = {
    "text": {"Optimizer.get_network_results": "report"},
    "line": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
             "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "empty": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
              "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "unused": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
               "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "express": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
             "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "circular": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
                 "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "circular_back": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
                      "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "rows": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "TransportNetwork.get_routes": "lines",
             "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
}


def loads(rows):
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for r, k, s, v in rows:
        d[r][k][s] = v
    return d


def solved(o, fin, res, routes, freqs, k, z, v, load):
    o.better_res = (res, True, 1, "m", 0, 5)
    o.network_obj.lines = routes
    o.freqs, o.k, o.z, o.v, o.load = freqs, keyed(k), loads(z), loads(v), loads(load)
    fin.network_obj, fin.graph_obj, fin.passenger_obj, fin.demand_obj = o.network_obj, o.graph_obj, o.passenger_obj, o.demand_obj
    o.fin = fin


def stops(mode, nodes):
    return [StopNode(10 + i, mode, CityNode(i, nodes[i])) for i in range(len(nodes))]


def known(*nodes):
    return all([n.id is not None for n in nodes])


def distinct(a, b, c):
    return a.id != b.id and a.id != c.id and b.id != c.id


def probe_line(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct, z1, z2, v2, v3, z4, v4, z5, v5):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type != RouteType.CIRCULAR and f > 0 and k > 0):
        return None
    s1, s2, s3 = stops(bus, [a, b, c])
    one.nodes_sequence_i, one.nodes_sequence_r, one.ct = [a.id, b.id, c.id], [c.id, b.id, a.id], ct
    solved(o, fin, res, [one], [(one.id, f)], [(one.id, k)],
           [(one.id, "I", s1, z1), (one.id, "I", s2, z2), (one.id, "R", s3, z4), (one.id, "R", s2, z5)],
           [(one.id, "I", s2, v2), (one.id, "I", s3, v3), (one.id, "R", s1, v4), (one.id, "R", s2, v5)], [])
    return o.get_network_results()


def lowest(*sections):
    return abs(min(sections))


def spec_line(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct, z1, z2, v2, v3, z4, v4, z5, v5):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type != RouteType.CIRCULAR and f > 0 and k > 0):
        return None
    pax = z1 + z2 + z4 + z5
    co = 0 if pax == 0 else (bus.co + bus.c1 * k) * ct / pax
    s, t, r, q = z1 / k, (z1 + z2 - v2) / k, z4 / k, (z4 + z5 - v5) / k
    return [(one.id, f, f / bus.d, k, ct * f, ct * 60, co, lowest(s, t, r, q), [(a.id, b.id, abs(s)), (b.id, c.id, abs(t))], [(c.id, b.id, abs(r)), (b.id, a.id, abs(q))])]


def probe_express(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct, z1, z2, v2, v3, z4, v4):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type != RouteType.CIRCULAR and f > 0 and k > 0):
        return None
    s1, s2, s3 = stops(bus, [a, b, c])
    one.nodes_sequence_i, one.nodes_sequence_r, one.ct = [a.id, b.id, c.id], [c.id, b.id, a.id], ct
    solved(o, fin, res, [one], [(one.id, f)], [(one.id, k)],
           [(one.id, "I", s1, z1), (one.id, "I", s2, z2), (one.id, "R", s3, z4)],
           [(one.id, "I", s2, v2), (one.id, "I", s3, v3), (one.id, "R", s1, v4)], [])
    return o.get_network_results()


def spec_express(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct, z1, z2, v2, v3, z4, v4):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type != RouteType.CIRCULAR and f > 0 and k > 0):
        return None
    pax = z1 + z2 + z4
    co = 0 if pax == 0 else (bus.co + bus.c1 * k) * ct / pax
    s, t, r, q = z1 / k, (z1 + z2 - v2) / k, z4 / k, (z4) / k
    return [(one.id, f, f / bus.d, k, ct * f, ct * 60, co, lowest(s, t, r, q), [(a.id, b.id, abs(s)), (b.id, c.id, abs(t))], [(c.id, b.id, abs(r)), (b.id, a.id, abs(q))])]


def probe_empty(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, ct):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type == RouteType.CUSTOM and f > 0):
        return None
    one.nodes_sequence_i, one.nodes_sequence_r, one.ct = [a.id, b.id, c.id], [c.id, b.id, a.id], ct
    solved(o, fin, res, [one], [(one.id, f)], [], [], [], [])
    return o.get_network_results()


def spec_empty(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, ct):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type == RouteType.CUSTOM and f > 0):
        return None
    return [(one.id, f, f / bus.d, 0, ct * f, ct * 60, 0, 0, [(a.id, b.id, 0), (b.id, c.id, 0)], [(c.id, b.id, 0), (b.id, a.id, 0)])]


def probe_unused(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, ct):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and f <= 0):
        return None
    one.nodes_sequence_i, one.nodes_sequence_r, one.ct = [a.id, b.id, c.id], [c.id, b.id, a.id], ct
    solved(o, fin, res, [one], [(one.id, f)], [], [], [], [])
    return o.get_network_results()


def spec_unused(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, ct):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and f <= 0):
        return None
    return [(one.id, 0, 0, 0, 0, 0, 0, 0, [(a.id, b.id, 0), (b.id, c.id, 0)], [(c.id, b.id, 0), (b.id, a.id, 0)])]


def probe_circular(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct, z1, z2, l1, l2, l3):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type == RouteType.CIRCULAR and f > 0 and l1 >= 0 and l2 >= 0 and l3 >= 0):
        return None
    s1, s2, s3 = stops(bus, [a, b, c])
    one.nodes_sequence_i, one.nodes_sequence_r, one.ct = [a.id, b.id, c.id, a.id], [], ct
    solved(o, fin, res, [one], [(one.id, f)], [(one.id, k)], [(one.id, "I", s1, z1), (one.id, "I", s2, z2)], [],
           [(one.id, "I", s1, l1), (one.id, "I", s2, l2), (one.id, "I", s3, l3)])
    return o.get_network_results()


def spec_circular(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct, z1, z2, l1, l2, l3):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type == RouteType.CIRCULAR and f > 0 and l1 >= 0 and l2 >= 0 and l3 >= 0):
        return None
    co = 0 if z1 + z2 == 0 else (bus.co + bus.c1 * k) * ct / (z1 + z2)
    m = max(l1, l2, l3)
    if m == 0:
        m = 1
    return [(one.id, f, f / bus.d, k, ct * f, ct * 60, co, abs(min(l1, l2, l3) / m), [(a.id, b.id, abs(l1 / m)), (b.id, c.id, abs(l2 / m)), (c.id, a.id, abs(l3 / m))], [])]


def probe_circular_back(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type == RouteType.CIRCULAR and f > 0):
        return None
    one.nodes_sequence_i, one.nodes_sequence_r, one.ct = [], [a.id, c.id, b.id, a.id], ct
    solved(o, fin, res, [one], [(one.id, f)], [(one.id, k)], [], [], [])
    return o.get_network_results()


def spec_circular_back(o: Optimizer, fin: Optimizer, res, bus: TransportMode, one: Route, a: Node, b: Node, c: Node, f, k, ct):
    if not (known(a, b, c) and distinct(a, b, c) and one.mode is bus and one._type == RouteType.CIRCULAR and f > 0):
        return None
    return [(one.id, f, f / bus.d, k, ct * f, ct * 60, 0, 0, [], [(a.id, c.id, 0), (c.id, b.id, 0), (b.id, a.id, 0)])]


def probe_rows(o: Optimizer, fin: Optimizer, res, one: Route, two: Route, three: Route, a: Node, b: Node, c: Node, f):
    if not (distinct(one, two, three) and two._type == RouteType.CUSTOM and a.id != b.id and f > 0):
        return None
    for r in [one, two, three]:
        r.nodes_sequence_i, r.nodes_sequence_r, r.ct = [a.id, b.id], [b.id, a.id], 1
    solved(o, fin, res, [one, two, three], [(two.id, f)], [], [], [], [])
    return [(r[0], r[1]) for r in o.get_network_results()]


def spec_rows(o: Optimizer, fin: Optimizer, res, one: Route, two: Route, three: Route, a: Node, b: Node, c: Node, f):
    if not (distinct(one, two, three) and two._type == RouteType.CUSTOM and a.id != b.id and f > 0):
        return None
    return [(one.id, 0), (two.id, f), (three.id, 0)]


def probe_none(o: Optimizer):
    o.better_res = None
    return o.get_network_results()


def spec_none(o: Optimizer):
    raise NoOptimalSolutionFoundException("")


def probe_text_none(o: Optimizer):
    o.better_res = None
    return o.string_network_results()


def spec_text_none(o: Optimizer):
    raise NoOptimalSolutionFoundException("")


def probe_file_none(o: Optimizer, path):
    o.better_res = None
    o.write_file_network_results(path)


def spec_file_none(o: Optimizer, path):
    raise NoOptimalSolutionFoundException("")


HEAD = "route_id;F[veh/hr];f[veh/hr-line];k[pax/veh];B[veh];tc[min];CO[US$/hr-pax];load_min;sub_table_i;sub_table_r"


def probe_text(o: Optimizer, one, two, f, g, k, b, ct, co, low, go, back):
    o.report = [(one, f, g, k, b, ct, co, low, go, back), (two, g, f, b, k, co, ct, 0, back, go)]
    return o.string_network_results()


def spec_text(o: Optimizer, one, two, f, g, k, b, ct, co, low, go, back):
    row = "\n{};{:.2f};{:.2f};{:.2f};{:.2f};{:.2f};{:.2f};{:.2f};{};{}"
    return HEAD + row.format(one, f, g, k, b, ct, co, low, go, back) + row.format(two, g, f, b, k, co, ct, 0, back, go)
