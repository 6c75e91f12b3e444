from typing import Dict, List

from sidermit.city import Graph
from sidermit.optimization.preoptimization import ExtendedGraph
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode, RouteNode, ExtendedEdge, ExtendedEdgesType
from sidermit.publictransportsystem import Route, TransportMode
from sidermit.publictransportsystem.network import RouteType

OBJECTS = ["RouteNode"]


def probe_city(g: Graph):
    return [(c.id, c.graph_node) for c in ExtendedGraph.build_city_nodes(g)]


def spec_city(g: Graph):
    return [(i, n) for i, n in enumerate(g.get_nodes())]


def probe_access(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]]):
    return [(e.nodei, e.nodej, e.type) for e in ExtendedGraph.build_access_edges(tree)]


def spec_access(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]]):
    out = []
    for c in tree:
        for s in tree[c]:
            out.append((c, s, ExtendedEdgesType.ACCESS))
            out.append((s, c, ExtendedEdgesType.ACCESS))
    return out


def place(r):
    return str(r.stop_node.city_node.graph_node.id)


def path(r):
    return r.route.nodes_sequence_i if r.direction == "I" else r.route.nodes_sequence_r


def probe_boarding(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], freq: Dict[str, float]):
    return [(e.nodei, e.nodej, e.type) for e in ExtendedGraph.build_boarding_edges(tree, freq)]


def spec_boarding(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], freq: Dict[str, float]):
    return [(s, r, ExtendedEdgesType.BOARDING) for c in tree for s in tree[c] for r in tree[c][s]
            if r.route._type == RouteType.CIRCULAR or place(r) != str(path(r)[-1])]


def probe_alighting(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], penalty: float):
    return [(e.nodei, e.nodej, e.type) for e in ExtendedGraph.build_alighting_edges(tree, penalty)]


def spec_alighting(tree: Dict[CityNode, Dict[StopNode, List[RouteNode]]], penalty: float):
    return [(r, s, ExtendedEdgesType.ALIGHTING) for c in tree for s in tree[c] for r in tree[c][s]
            if r.route._type == RouteType.CIRCULAR or place(r) != str(path(r)[0])]


def probe_links(c: CityNode, s: StopNode, r: RouteNode, cities: List[CityNode]):
    return [(e.nodei, e.nodej, e.type) for e in ExtendedGraph.build_route_edges({c: {s: [r]}}, cities)]


def spec_links(c: CityNode, s: StopNode, r: RouteNode, cities: List[CityNode]):
    return [(r.prev_route_node, r, ExtendedEdgesType.ROUTE)] if r.prev_route_node is not None else []


def serves(r, c):
    return any(str(s) == str(c.graph_node.id) for s in r.stops_sequence_i) or any(str(s) == str(c.graph_node.id) for s in r.stops_sequence_r)

def probe_served(routes: List[Route], cities: List[CityNode], c: CityNode, m: TransportMode):
    t = ExtendedGraph.build_tree_graph(routes, cities)
    return c in t and m in t[c]


def spec_served(routes: List[Route], cities: List[CityNode], c: CityNode, m: TransportMode):
    return c in cities and any(r.mode == m and serves(r, c) for r in routes)


def probe_one(r: Route, c: CityNode):
    return [(s.mode, s.city_node) for s in ExtendedGraph.build_stop_nodes(ExtendedGraph.build_tree_graph([r], [c]))]


def spec_one(r: Route, c: CityNode):
    return [(r.mode, c)] if serves(r, c) else []


def probe_stops(tree: Dict[CityNode, Dict[TransportMode, list]]):
    return [(s.mode, s.city_node) for s in ExtendedGraph.build_stop_nodes(tree)]


def spec_stops(tree: Dict[CityNode, Dict[TransportMode, list]]):
    return [(m, c) for c in tree for m in tree[c]]

def probe_chain(r: Route, stops: List[StopNode]):
    return [(n.route, n.direction, n.stop_node) for n in ExtendedGraph.build_route_nodes([r], stops)]


def at(stops, mode, place):
    return next((s for s in stops if s.mode == mode and str(s.city_node.graph_node.id) == str(place)), None)


def visits(r, places):
    if r._type == RouteType.CIRCULAR:
        return [places[k] for k in range(1, len(places))]
    return list(places) if r._type == RouteType.PREDEFINED or r._type == RouteType.CUSTOM else []


def spec_chain(r: Route, stops: List[StopNode]):
    return [(r, "I", at(stops, r.mode, p)) for p in visits(r, r.stops_sequence_i)] \
        + [(r, "R", at(stops, r.mode, p)) for p in visits(r, r.stops_sequence_r)]


def probe_prev(r: Route, stops: List[StopNode]):
    return [None if n.prev_route_node is None else n.prev_route_node.stop_node for n in ExtendedGraph.build_route_nodes([r], stops)]


def spec_prev(r: Route, stops: List[StopNode]):
    out = []
    for places in (r.stops_sequence_i, r.stops_sequence_r):
        if r._type == RouteType.CIRCULAR:
            out += [at(stops, r.mode, places[k - 1]) if k > 1 else at(stops, r.mode, places[-1]) for k in range(1, len(places))]
        elif r._type == RouteType.PREDEFINED or r._type == RouteType.CUSTOM:
            out += [at(stops, r.mode, places[k - 1]) if k > 0 else None for k in range(len(places))]
    return out


def probe_chains(routes: List[Route], stops: List[StopNode]):
    return [(n.route, n.direction, n.stop_node) for n in ExtendedGraph.build_route_nodes(routes, stops)]


def spec_chains(routes: List[Route], stops: List[StopNode]):
    out = []
    for r in routes:
        out += [(r, "I", at(stops, r.mode, p)) for p in visits(r, r.stops_sequence_i)]
        out += [(r, "R", at(stops, r.mode, p)) for p in visits(r, r.stops_sequence_r)]
    return out


def probe_group(nodes: List[RouteNode], c: CityNode, s: StopNode):
    t = ExtendedGraph.build_extended_graph_nodes(nodes)
    return c in t and s in t[c], t[c][s] if c in t and s in t[c] else []


def spec_group(nodes: List[RouteNode], c: CityNode, s: StopNode):
    here = [n for n in nodes if n.stop_node == s and s.city_node == c]
    return len(here) > 0, here


STUB_FOR = {"whole": {
    "ExtendedGraph.build_city_nodes": "s_city", "ExtendedGraph.build_tree_graph": "s_tree", "ExtendedGraph.build_stop_nodes": "s_stop",
    "ExtendedGraph.build_route_nodes": "s_route", "ExtendedGraph.build_extended_graph_nodes": "s_nodes",
    "ExtendedGraph.build_access_edges": "s_access", "ExtendedGraph.build_boarding_edges": "s_boarding",
    "ExtendedGraph.build_alighting_edges": "s_alighting", "ExtendedGraph.build_route_edges": "s_links"}}


def s_city(g):
    return [("city", g)]


def s_tree(routes, cities):
    return [("tree", routes, cities)]


def s_stop(tree):
    return [("stops", tree)]


def s_route(routes, stops):
    return [("route nodes", routes, stops)]


def s_nodes(nodes):
    return [("nodes", nodes)]


def s_access(tree):
    return [("access", tree)]


def s_boarding(tree, freq):
    return [("boarding", tree, freq)]


def s_alighting(tree, penalty):
    return [("alighting", tree, penalty)]


def s_links(tree, cities):
    return [("links", tree)]


def probe_whole(g: Graph, routes: List[Route], penalty: float, freq: Dict[str, float]):
    e = ExtendedGraph(g, routes, penalty, freq)
    return e.get_extended_graph_nodes(), e.get_extended_graph_edges()


def spec_whole(g: Graph, routes: List[Route], penalty: float, freq: Dict[str, float]):
    cities = [("city", g)]
    tree = [("nodes", [("route nodes", routes, [("stops", [("tree", routes, cities)])])])]
    return tree, [("access", tree), ("boarding", tree, freq), ("alighting", tree, penalty), ("links", tree)]


class Place:
    def __init__(self, id, x, y):
        self.id = id
        self.name = id
        self.x = x
        self.y = y


class City:
    def __init__(self, places):
        self.places = places

    def get_nodes(self):
        return self.places


class Line:
    def __init__(self, id, mode, there, back, stops, stops_back, kind):
        self.id = id
        self.mode = mode
        self.nodes_sequence_i = there
        self.nodes_sequence_r = back
        self.stops_sequence_i = stops
        self.stops_sequence_r = stops_back
        self._type = kind


def named(n):
    if isinstance(n, CityNode):
        return "city " + n.graph_node.id, None
    if isinstance(n, StopNode):
        return "stop " + n.city_node.graph_node.id, n.mode
    return "line " + n.route.id + " " + n.direction + " " + n.stop_node.city_node.graph_node.id, n.route.mode


def lines(m, k):
    """an ordinary line, an express line of another mode and a ring served in one direction"""
    return [Line("a", m, ["p", "s", "c"], ["c", "s", "p"], ["p", "s", "c"], ["c", "s", "p"], RouteType.PREDEFINED),
            Line("b", k, ["p", "s", "c", "t"], ["t", "s", "p"], ["p", "t"], ["t", "p"], RouteType.CUSTOM),
            Line("o", m, ["s", "t", "c", "s"], [], ["s", "t", "c", "s"], [], RouteType.CIRCULAR)]


def links(m, k):
    e = ExtendedGraph(City([Place("c", 0, 0), Place("p", 3, 4), Place("s", 0, 1), Place("t", 1, 0)]), lines(m, k), 16, {"a": 1, "b": 2, "o": 3})
    return [(named(x.nodei), named(x.nodej), x.type) for x in e.get_extended_graph_edges()]


def there(m, k):
    out = []
    for a, b in (("p", m), ("s", m), ("c", m), ("t", m), ("p", k), ("t", k)):
        out += [(("city " + a, None), ("stop " + a, b), ExtendedEdgesType.ACCESS), (("stop " + a, b), ("city " + a, None), ExtendedEdgesType.ACCESS)]
    for l, a, b in (("a I", "p", m), ("a I", "s", m), ("a R", "c", m), ("a R", "s", m), ("b I", "p", k), ("b R", "t", k),
                    ("o I", "t", m), ("o I", "c", m), ("o I", "s", m)):
        out.append((("stop " + a, b), ("line " + l + " " + a, b), ExtendedEdgesType.BOARDING))
    for l, a, b in (("a I", "c", m), ("a I", "s", m), ("a R", "p", m), ("a R", "s", m), ("b I", "t", k), ("b R", "p", k),
                    ("o I", "t", m), ("o I", "c", m), ("o I", "s", m)):
        out.append((("line " + l + " " + a, b), ("stop " + a, b), ExtendedEdgesType.ALIGHTING))
    for l, a, b, w in (("a I", "p", "s", m), ("a I", "s", "c", m), ("a R", "c", "s", m), ("a R", "s", "p", m), ("b I", "p", "t", k), ("b R", "t", "p", k),
                       ("o I", "s", "t", m), ("o I", "t", "c", m), ("o I", "c", "s", m)):
        out.append((("line " + l + " " + a, w), ("line " + l + " " + b, w), ExtendedEdgesType.ROUTE))
    return out


def probe_net(m: TransportMode, k: TransportMode):
    if m == k:
        return None
    found = links(m, k)
    return [x in found for x in there(m, k)], len(found)


def spec_net(m: TransportMode, k: TransportMode):
    if m == k:
        return None
    return [True for x in there(m, k)], 39
