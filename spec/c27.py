from collections import defaultdict
from sidermit.city.graph import Graph, Node, Edge
from sidermit.publictransportsystem import Route, TransportMode, TransportNetwork
from sidermit.optimization.infrastructure_cost import InfrastructureCost


def ends(self, edge_id, node1, node2):
    self.id, self.node1, self.node2 = edge_id, node1, node2


def streets(self):
    return self.streets


def lengths(self):
    return self.lengths


def lines(self):
    return self.lines


def kinds(self):
    return self.kinds


STUB = {"Edge.__init__": "ends", "Graph.get_edges": "streets", "Graph.get_edges_distance": "lengths",
        "TransportNetwork.get_routes": "lines", "TransportNetwork.get_modes": "kinds"}


def city(g, a, b, c, x, y, z):
    g.streets = [Edge(0, a, b), Edge(1, b, a), Edge(2, b, c), Edge(3, c, b), Edge(4, c, a), Edge(5, a, c)]
    d = defaultdict(lambda: defaultdict(float))
    d[a.id][b.id] = x
    d[b.id][a.id] = x
    d[b.id][c.id] = y
    d[c.id][b.id] = y
    d[c.id][a.id] = z
    d[a.id][c.id] = z
    g.lengths = d


def freq(rows):
    d = defaultdict(float)
    for k, v in rows:
        d[k] = v
    return d


def distinct(a, b, c):
    return a.id != b.id and a.id != c.id and b.id != c.id


def probe_one(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, f, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus):
        return None
    city(g, a, b, c, x, y, z)
    one.nodes_sequence_i, one.nodes_sequence_r = [a.id, b.id, c.id], [c.id, b.id, a.id]
    t.lines, t.kinds = [one], [bus]
    return InfrastructureCost.get_mode_network_distance(g, t, freq([(one.id, f)]))[bus]


def spec_one(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, f, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus):
        return None
    return (x + y) * bus.d if f != 0 else 0


def probe_round(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, f, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus):
        return None
    city(g, a, b, c, x, y, z)
    one.nodes_sequence_i, one.nodes_sequence_r = [a.id, b.id, c.id], [c.id, a.id]
    t.lines, t.kinds = [one], [bus]
    return InfrastructureCost.get_mode_network_distance(g, t, freq([(one.id, f)]))[bus]


def spec_round(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, f, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus):
        return None
    return (x + y + z) * bus.d if f != 0 else 0


def probe_single(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, f, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus):
        return None
    city(g, a, b, c, x, y, z)
    one.nodes_sequence_i, one.nodes_sequence_r = [], [c.id, b.id]
    t.lines, t.kinds = [one], [bus]
    return InfrastructureCost.get_mode_network_distance(g, t, freq([(one.id, f)]))[bus]


def spec_single(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, f, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus):
        return None
    return y * bus.d if f != 0 else 0


def probe_shared(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    city(g, a, b, c, x, y, z)
    one.nodes_sequence_i, one.nodes_sequence_r = [a.id, b.id], [b.id, a.id]
    two.nodes_sequence_i, two.nodes_sequence_r = [c.id, b.id, a.id], [a.id, b.id, c.id]
    t.lines, t.kinds = [one, two], [bus]
    return InfrastructureCost.get_mode_network_distance(g, t, freq([(one.id, f), (two.id, f2)]))[bus]


def spec_shared(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    km = 0
    if f != 0 or f2 != 0:
        km += x
    if f2 != 0:
        km += y
    return km * bus.d


def probe_modes(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus and two.mode is metro and bus is not metro and bus.name != metro.name and one.id != two.id):
        return None
    city(g, a, b, c, x, y, z)
    one.nodes_sequence_i, one.nodes_sequence_r = [a.id, b.id], [b.id, a.id]
    two.nodes_sequence_i, two.nodes_sequence_r = [a.id, b.id, c.id], [c.id, b.id, a.id]
    t.lines, t.kinds = [one, two], [bus, metro]
    d = InfrastructureCost.get_mode_network_distance(g, t, freq([(one.id, f), (two.id, f2)]))
    return d[bus], d[metro], InfrastructureCost.get_infrastruture_cost(g, t, freq([(one.id, f), (two.id, f2)]))


def spec_modes(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus and two.mode is metro and bus is not metro and bus.name != metro.name and one.id != two.id):
        return None
    p, q = 0, 0
    if f != 0:
        p = x * bus.d
    if f2 != 0:
        q = (x + y) * metro.d
    return p, q, p * bus.c2 + q * metro.c2


def probe_opposite(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    city(g, a, b, c, x, y, z)
    one.nodes_sequence_i, one.nodes_sequence_r = [c.id, a.id], [a.id, b.id, c.id]
    two.nodes_sequence_i, two.nodes_sequence_r = [c.id, b.id], [b.id, a.id, c.id]
    t.lines, t.kinds = [one, two], [bus]
    return InfrastructureCost.get_mode_network_distance(g, t, freq([(one.id, f), (two.id, f2)]))[bus]


def spec_opposite(g: Graph, t: TransportNetwork, a: Node, b: Node, c: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, y, z):
    if not (distinct(a, b, c) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    return (x + y + z) * bus.d if f != 0 or f2 != 0 else 0
