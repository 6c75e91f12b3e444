from collections import defaultdict
from sidermit.city.graph import Node
from sidermit.publictransportsystem import Route, TransportMode, Passenger
from sidermit.optimization.users_cost import UsersCost
from sidermit.optimization.preoptimization import ExtendedGraph
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode, RouteNode, ExtendedEdge, ExtendedEdgesType

INF = float("inf")
WHILE = {"change": 18, "around": 20, "ride": 12, "back": 12, "common": 10, "transfer": 16, "stops": 10, "walk": 16, "idle": 3, "pairs": 12}
FINITE = ("v3", "z2", "f", "f2", "f3", "x", "y", "s1", "s2", "t1", "t2", "t3", "va", "z1", "v1", "v2")


def edges_of(self):
    return self.net_edges


def amounts(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v):
    g = extended_graph
    g.seen = (hyperpaths, Vij, assignment, successors, vp, f, z, v)
    return g.ta, g.te, g.tv, g.t


STUB = {"ExtendedGraph.get_extended_graph_edges": "edges_of"}
STUB_FOR = {"price": {"UsersCost.resources_consumer": "amounts"}}


class Net:
    """stops of cities; lines given as (route, direction, f, [stops], [times])"""
    def __init__(self, nodes, modes, lines):
        T = ExtendedEdgesType
        self.city = [CityNode(i, nodes[i]) for i in range(len(nodes))]
        self.stop = [StopNode(10 + i, modes[i][1], self.city[modes[i][0]]) for i in range(len(modes))]
        self.walk = [ExtendedEdge(0, s, s.city_node, 1, INF, T.ACCESS) for s in self.stop]
        self.enter = [ExtendedEdge(0, s.city_node, s, 1, INF, T.ACCESS) for s in self.stop]
        self.on = []
        self.board = []
        self.alight = []
        self.ride = []
        n = 100
        for route, direction, f, stops, times in lines:
            prev = None
            for k in range(len(stops)):
                s = self.stop[stops[k]]
                r = RouteNode(n, route, direction, s, prev)
                n += 1
                self.on.append(r)
                self.board.append(ExtendedEdge(0, s, r, 0, f, T.BOARDING))
                self.alight.append(ExtendedEdge(0, r, s, 1, INF, T.ALIGHTING))
                if k > 0:
                    self.ride.append(ExtendedEdge(0, prev, r, times[k - 1], INF, T.ROUTE))
                prev = r
        self.edges = self.walk + self.enter + self.board + self.alight + self.ride


def nest(rows):
    """rows (origin, destination, key, value) as origin -> destination -> key -> value"""
    d = defaultdict(lambda: defaultdict(dict))
    for o, t, k, v in rows:
        d[o][t][k] = v
    return d


def succ(rows):
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    for o, t, k, v in rows:
        d[o][t][k] = v
    return d


def loads(rows):
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for r, k, s, v in rows:
        d[r][k][s] = v
    return d


def freq(rows):
    d = defaultdict(float)
    for k, v in rows:
        d[k] = v
    return d


def trips(rows):
    d = defaultdict(lambda: defaultdict(float))
    for o, t, v in rows:
        d[o][t] = v
    return d


def positive(*values):
    return all(x > 0 for x in values)


def probe_ride(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, va, t1, t2, z1, v1, v2):
    if not (positive(f, x, va, t1, t2) and one.mode is bus and (bus.bya == 0 or bus.bya == 1)):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", 1, [0, 1, 2], [t1, t2])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.ride[1]]), (a, b, net.on[2], [net.alight[2]]), (a, b, t, [net.walk[2]])])
    z = loads([(one.id, "I", w, z1)])
    v = loads([(one.id, "I", w, v1), (one.id, "I", t, v2)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f)]), z, v)


def spec_ride(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, va, t1, t2, z1, v1, v2):
    if not (positive(f, x, va, t1, t2) and one.mode is bus and (bus.bya == 0 or bus.bya == 1)):
        return None
    tb = bus.t / 3600
    dwell = max(z1, v1) if bus.bya == 1 else z1 + v1
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d)), x * bus.theta * bus.d / f, x * (t1 + t2 + dwell * tb + v2 * tb / 2), 0)


def probe_back(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, va, t1, t2, z1, v1, v2):
    if not (positive(f, x, va, t1, t2) and one.mode is bus and (bus.bya == 0 or bus.bya == 1)):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "R", 1, [0, 1, 2], [t1, t2])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.ride[1]]), (a, b, net.on[2], [net.alight[2]]), (a, b, t, [net.walk[2]])])
    z = loads([(one.id, "R", w, z1)])
    v = loads([(one.id, "R", w, v1), (one.id, "R", t, v2)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f)]), z, v)


def spec_back(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, va, t1, t2, z1, v1, v2):
    if not (positive(f, x, va, t1, t2) and one.mode is bus and (bus.bya == 0 or bus.bya == 1)):
        return None
    tb = bus.t / 3600
    dwell = max(z1, v1) if bus.bya == 1 else z1 + v1
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d)), x * bus.theta * bus.d / f, x * (t1 + t2 + dwell * tb + v2 * tb / 2), 0)


def probe_common(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, va, t1, t2) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 1, [0, 1], [t1]), (two, "R", 1, [0, 1], [t2])])
    g.net_edges = net.edges
    a, b = net.city
    s, t = net.stop
    suc = succ([(a, b, s, [net.board[0], net.board[2]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[2], [net.ride[1]]),
                (a, b, net.on[1], [net.alight[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, t, [net.walk[1]])])
    v = loads([(one.id, "I", t, v1), (two.id, "R", t, v2)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f), (two.id, f2)]), loads([]), v)


def spec_common(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, va, t1, t2) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    tb = bus.t / 3600
    p, q = x * f / (f + f2), x * f2 / (f + f2)
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d)), x * bus.theta * bus.d / (f + f2), p * (t1 + v1 * tb / 2) + q * (t2 + v2 * tb / 2), 0)


def probe_transfer(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, va, t1, t2) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", 1, [0, 1], [t1]), (two, "I", 1, [1, 2], [t2])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]),
                (a, b, w, [net.board[2]]), (a, b, net.on[2], [net.ride[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, t, [net.walk[2]])])
    v = loads([(one.id, "I", w, v1), (two.id, "I", t, v2)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f), (two.id, f2)]), loads([]), v)


def spec_transfer(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, va, t1, t2) and one.mode is bus and two.mode is bus and one.id != two.id):
        return None
    tb = bus.t / 3600
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d)), x * bus.theta * bus.d / f + x * bus.theta * bus.d / f2, x * (t1 + t2 + (v1 + v2) * tb / 2), x)


def probe_stops(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, s1, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, s1, 100 - s1, va, t1, t2) and one.mode is bus and two.mode is metro and one.id != two.id):
        return None
    net = Net([n1, n2], [(0, bus), (0, metro), (1, bus), (1, metro)], [(one, "I", 1, [0, 2], [t1]), (two, "R", 1, [1, 3], [t2])])
    g.net_edges = net.edges
    a, b = net.city
    s, r, t, q = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, t, [net.walk[2]]),
                (a, b, r, [net.board[2]]), (a, b, net.on[2], [net.ride[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, q, [net.walk[3]])])
    v = loads([(one.id, "I", t, v1), (two.id, "R", q, v2)])
    return u.resources_consumer(nest([(a, b, s, []), (a, b, r, [])]), trips([(a, b, x)]), nest([(a, b, s, s1), (a, b, r, 100 - s1)]), suc, g, va,
                                freq([(one.id, f), (two.id, f2)]), loads([]), v)


def spec_stops(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, s1, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, s1, 100 - s1, va, t1, t2) and one.mode is bus and two.mode is metro and one.id != two.id):
        return None
    p, q = x * s1 / 100, x * (100 - s1) / 100
    return (p * (bus.tat / 60 + s1 / 100 * n1.width / (4 * va * bus.d)) + q * (metro.tat / 60 + (100 - s1) / 100 * n1.width / (4 * va * metro.d)),
            p * bus.theta * bus.d / f + q * metro.theta * metro.d / f2,
            p * (t1 + v1 * bus.t / 3600 / 2) + q * (t2 + v2 * metro.t / 3600 / 2), 0)


def probe_walk(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, va, t1, t2) and one.mode is bus and two.mode is metro and one.id != two.id):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (1, metro), (2, metro)], [(one, "I", 1, [0, 1], [t1]), (two, "I", 1, [2, 3], [t2])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, w2, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, w, [net.walk[1]]), (a, b, c, [net.enter[2]]),
                (a, b, w2, [net.board[2]]), (a, b, net.on[2], [net.ride[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, t, [net.walk[3]])])
    v = loads([(one.id, "I", w, v1), (two.id, "I", t, v2)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f), (two.id, f2)]), loads([]), v)


def spec_walk(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, v1, v2):
    if not (positive(f, f2, x, va, t1, t2) and one.mode is bus and two.mode is metro and one.id != two.id):
        return None
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d) + bus.tat / 60 + metro.tat / 60), x * bus.theta * bus.d / f + x * metro.theta * metro.d / f2,
            x * (t1 + t2 + v1 * bus.t / 3600 / 2 + v2 * metro.t / 3600 / 2), x)


def probe_pairs(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, y, va, t1, t2, z1, v1, v2):
    if not (positive(f, x, y, va, t1, t2) and one.mode is bus and bus.bya == 0):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", 1, [0, 1, 2], [t1, t2])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.ride[1]]), (a, b, net.on[2], [net.alight[2]]), (a, b, t, [net.walk[2]]),
                (c, b, w, [net.board[1]]), (c, b, net.on[1], [net.ride[1]]), (c, b, net.on[2], [net.alight[2]]), (c, b, t, [net.walk[2]])])
    z = loads([(one.id, "I", w, z1)])
    v = loads([(one.id, "I", w, v1), (one.id, "I", t, v2)])
    return u.resources_consumer(nest([(a, b, s, []), (c, b, w, [])]), trips([(a, b, x), (c, b, y)]), nest([(a, b, s, 100), (c, b, w, 100)]), suc, g, va, freq([(one.id, f)]), z, v)


def spec_pairs(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, y, va, t1, t2, z1, v1, v2):
    if not (positive(f, x, y, va, t1, t2) and one.mode is bus and bus.bya == 0):
        return None
    tb = bus.t / 3600
    return ((x + y) * bus.tat / 60 + (x * n1.width + y * n2.width) / (4 * va * bus.d), (x + y) * bus.theta * bus.d / f,
            x * (t1 + t2 + (z1 + v1) * tb + v2 * tb / 2) + y * (t2 + v2 * tb / 2), 0)


def probe_idle(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, bus: TransportMode, one: Route, f, va, t1):
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 1, [0, 1], [t1])])
    g.net_edges = net.edges
    a, b = net.city
    s, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, t, [net.walk[1]])])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, 0)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f)]), loads([]), loads([]))


def spec_idle(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, bus: TransportMode, one: Route, f, va, t1):
    return 0, 0, 0, 0


def probe_price(u: UsersCost, g: ExtendedGraph, p: Passenger, x, ta, te, tv, t):
    g.ta, g.te, g.tv, g.t = ta, te, tv, t
    cost = u.get_users_cost(1, 2, 3, 4, g, 5, p, 6, 7)
    return cost, g.seen


def spec_price(u: UsersCost, g: ExtendedGraph, p: Passenger, x, ta, te, tv, t):
    return ta * p.spa + te * p.spw + tv * p.spv + t * p.spt / 60 * p.spv, (1, 2, 3, 4, p.va, 5, 6, 7)


def probe_change(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, t3, v1, v2, v3, z2):
    """from a bus to a metro that calls at a stop on the way"""
    if not (positive(f, f2, x, va, t1, t2, t3) and one.mode is bus and two.mode is metro and one.id != two.id and (metro.bya == 0 or metro.bya == 1)):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (1, metro), (0, metro), (2, metro)], [(one, "I", 1, [0, 1], [t1]), (two, "R", 1, [2, 3, 4], [t2, t3])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, w2, q, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, w, [net.walk[1]]), (a, b, c, [net.enter[2]]),
                (a, b, w2, [net.board[2]]), (a, b, net.on[2], [net.ride[1]]), (a, b, net.on[3], [net.ride[2]]), (a, b, net.on[4], [net.alight[4]]), (a, b, t, [net.walk[4]])])
    z = loads([(two.id, "R", q, z2)])
    v = loads([(one.id, "I", w, v1), (two.id, "R", q, v2), (two.id, "R", t, v3)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f), (two.id, f2)]), z, v)


def spec_change(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, t3, v1, v2, v3, z2):
    if not (positive(f, f2, x, va, t1, t2, t3) and one.mode is bus and two.mode is metro and one.id != two.id and (metro.bya == 0 or metro.bya == 1)):
        return None
    dwell = max(z2, v2) if metro.bya == 1 else z2 + v2
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d) + bus.tat / 60 + metro.tat / 60), x * bus.theta * bus.d / f + x * metro.theta * metro.d / f2,
            x * (t1 + t2 + t3 + v1 * bus.t / 3600 / 2 + dwell * metro.t / 3600 + v3 * metro.t / 3600 / 2), x)


def probe_around(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, t3, v1, v2, v3):
    """with a second transfer, at the origin's own city"""
    if not (positive(f, f2, x, va, t1, t2, t3) and one.mode is bus and two.mode is metro and one.id != two.id):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (1, metro), (0, metro), (2, metro)], [(one, "I", 1, [0, 1], [t1]), (two, "I", 1, [2, 3], [t2]), (two, "R", 1, [3, 4], [t3])])
    g.net_edges = net.edges
    a, c, b = net.city
    s, w, w2, q, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, w, [net.walk[1]]), (a, b, c, [net.enter[2]]),
                (a, b, w2, [net.board[2]]), (a, b, net.on[2], [net.ride[1]]), (a, b, net.on[3], [net.alight[3]]),
                (a, b, q, [net.board[4]]), (a, b, net.on[4], [net.ride[2]]), (a, b, net.on[5], [net.alight[5]]), (a, b, t, [net.walk[4]])])
    v = loads([(one.id, "I", w, v1), (two.id, "I", q, v2), (two.id, "R", t, v3)])
    return u.resources_consumer(nest([(a, b, s, [])]), trips([(a, b, x)]), nest([(a, b, s, 100)]), suc, g, va, freq([(one.id, f), (two.id, f2)]), loads([]), v)


def spec_around(u: UsersCost, g: ExtendedGraph, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, va, t1, t2, t3, v1, v2, v3):
    if not (positive(f, f2, x, va, t1, t2, t3) and one.mode is bus and two.mode is metro and one.id != two.id):
        return None
    return (x * (bus.tat / 60 + n1.width / (4 * va * bus.d) + bus.tat / 60 + metro.tat / 60), x * bus.theta * bus.d / f + 2 * x * metro.theta * metro.d / f2,
            x * (t1 + t2 + t3 + v1 * bus.t / 3600 / 2 + (v2 + v3) * metro.t / 3600 / 2), 2 * x)
