from typing import Dict, List

from sidermit.city import Graph
from sidermit.publictransportsystem import Route, TransportMode
from sidermit.publictransportsystem.network import RouteType
from sidermit.optimization.preoptimization import ExtendedGraph
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode, RouteNode


def probe_access(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]]):
    return [(e.t, e.f) for e in ExtendedGraph.build_access_edges(tree)]


def spec_access(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]]):
    out = []
    for c in tree:
        for s in tree[c]:
            out += [(s.mode.tat / 60, float("inf")), (s.mode.tat / 60, float("inf"))]
    return out


def probe_boarding(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], freq: Dict[str, float]):
    return [(e.nodej.route.id, e.t, e.f) for e in ExtendedGraph.build_boarding_edges(tree, freq)]


def spec_boarding(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], freq: Dict[str, float]):
    return [(e.nodej.route.id, 0, freq[e.nodej.route.id] / e.nodej.route.mode.d) for e in ExtendedGraph.build_boarding_edges(tree, freq)]


def probe_alighting(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], penalty: float):
    return [(e.t, e.f) for e in ExtendedGraph.build_alighting_edges(tree, penalty)]


def spec_alighting(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], penalty: float):
    return [(penalty / 60, float("inf")) for e in ExtendedGraph.build_alighting_edges(tree, penalty)]


def path(r):
    return r.route.nodes_sequence_i if r.direction == "I" else r.route.nodes_sequence_r


def spot(r):
    return r.stop_node.city_node.graph_node


def probe_links(c: CityNode, s: StopNode, r: RouteNode, cities: List[CityNode]):
    return [(e.t, e.f) for e in ExtendedGraph.build_route_edges({c: {s: [r]}}, cities)]


def spec_links(c: CityNode, s: StopNode, r: RouteNode, cities: List[CityNode]):
    if r.prev_route_node is None:
        return []
    a, b = spot(r.prev_route_node), spot(r)
    px, py, inside, total = a.x, a.y, False, 0
    for node in path(r):
        if str(node) == str(a.id):
            inside = True
        elif str(node) == str(b.id):
            total += ((px - b.x) ** 2 + (py - b.y) ** 2) ** 0.5
            break
        elif inside:
            for n in cities:
                if str(n.graph_node.id) == str(node):
                    total += ((px - n.graph_node.x) ** 2 + (py - n.graph_node.y) ** 2) ** 0.5
                    px, py = n.graph_node.x, n.graph_node.y
                    break
    return [(total / r.stop_node.mode.v, float("inf"))]


STUB_FOR = {"default": {
    "ExtendedGraph.build_city_nodes": "none", "ExtendedGraph.build_tree_graph": "none2", "ExtendedGraph.build_stop_nodes": "none",
    "ExtendedGraph.build_route_nodes": "none2", "ExtendedGraph.build_extended_graph_nodes": "none",
    "ExtendedGraph.build_access_edges": "none", "ExtendedGraph.build_boarding_edges": "used",
    "ExtendedGraph.build_alighting_edges": "none2", "ExtendedGraph.build_route_edges": "none2"}}


def none(a):
    return []


def none2(a, b):
    return []


def used(tree, freq):
    return [freq]


def probe_default(g: Graph, routes: List[Route], penalty: float, k: str):
    return ExtendedGraph(g, routes, penalty).get_extended_graph_edges()[0][k]


def spec_default(g: Graph, routes: List[Route], penalty: float, k: str):
    out = 0
    for r in routes:
        if r.id == k:
            out = r.mode.fini
    return out


class Place:
    def __init__(self, id, x, y):
        self.id = id
        self.name = id
        self.x = x
        self.y = y


class City:
    def __init__(self, places):
        self.places = places

    def get_nodes(self):
        return self.places


class Line:
    def __init__(self, id, mode, there, back, stops, stops_back, kind):
        self.id = id
        self.mode = mode
        self.nodes_sequence_i = there
        self.nodes_sequence_r = back
        self.stops_sequence_i = stops
        self.stops_sequence_r = stops_back
        self._type = kind


def named(n):
    if isinstance(n, CityNode):
        return "city " + n.graph_node.id, None
    if isinstance(n, StopNode):
        return "stop " + n.city_node.graph_node.id, n.mode
    return "line " + n.route.id + " " + n.direction + " " + n.stop_node.city_node.graph_node.id, n.route.mode


def lines(m, k):
    """an ordinary line, an express line of another mode and a ring served in one direction"""
    return [Line("a", m, ["p", "s", "c"], ["c", "s", "p"], ["p", "s", "c"], ["c", "s", "p"], RouteType.PREDEFINED),
            Line("b", k, ["p", "s", "c", "t"], ["t", "s", "p"], ["p", "t"], ["t", "p"], RouteType.CUSTOM),
            Line("o", m, ["s", "t", "c", "s"], [], ["s", "t", "c", "s"], [], RouteType.CIRCULAR)]


def links(m, k, penalty, a, b, o):
    e = ExtendedGraph(City([Place("c", 0, 0), Place("p", 0, 6), Place("s", 0, 3), Place("t", 4, 0)]), lines(m, k), penalty, {"a": a, "b": b, "o": o})
    return [(named(x.nodei), named(x.nodej), x.t, x.f) for x in e.get_extended_graph_edges()]


def weighed(m, k, penalty, fa, fb, fo):
    out = []
    for a, b in (("p", m), ("s", m), ("c", m), ("t", m), ("p", k), ("t", k)):
        out += [(("city " + a, None), ("stop " + a, b), b.tat / 60, float("inf")), (("stop " + a, b), ("city " + a, None), b.tat / 60, float("inf"))]
    for l, a, b, f in (("a I", "p", m, fa), ("a I", "s", m, fa), ("a R", "c", m, fa), ("a R", "s", m, fa), ("b I", "p", k, fb), ("b R", "t", k, fb),
                       ("o I", "t", m, fo), ("o I", "c", m, fo), ("o I", "s", m, fo)):
        out.append((("stop " + a, b), ("line " + l + " " + a, b), 0, f / b.d))
    for l, a, b in (("a I", "c", m), ("a I", "s", m), ("a R", "p", m), ("a R", "s", m), ("b I", "t", k), ("b R", "p", k),
                    ("o I", "t", m), ("o I", "c", m), ("o I", "s", m)):
        out.append((("line " + l + " " + a, b), ("stop " + a, b), penalty / 60, float("inf")))
    for l, a, b, w, d in (("a I", "p", "s", m, 3), ("a I", "s", "c", m, 3), ("a R", "c", "s", m, 3), ("a R", "s", "p", m, 3),
                          ("b I", "p", "t", k, 10), ("b R", "t", "p", k, 8),
                          ("o I", "s", "t", m, 5), ("o I", "t", "c", m, 4), ("o I", "c", "s", m, 3)):
        out.append((("line " + l + " " + a, w), ("line " + l + " " + b, w), d / w.v, float("inf")))
    return out


def probe_net(m: TransportMode, k: TransportMode, penalty: float, a: float, b: float, o: float):
    if m == k:
        return None
    found = links(m, k, penalty, a, b, o)
    return [x in found for x in weighed(m, k, penalty, a, b, o)], len(found)


def spec_net(m: TransportMode, k: TransportMode, penalty: float, a: float, b: float, o: float):
    if m == k:
        return None
    return [True for x in weighed(m, k, penalty, a, b, o)], 39
