from collections import defaultdict
from sidermit.city.graph import Node
from sidermit.publictransportsystem import Route, TransportMode
from sidermit.optimization.preoptimization import Assignment
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode, RouteNode, ExtendedEdge, ExtendedEdgesType

INF = float("inf")
WHILE = {"common": 8, "transfer": 14, "stops": 8, "pairs": 12, "idle": 4, "dead": 8, "rejoin": 18}
FINITE = ("f", "f2", "f3", "x", "y", "s1", "s2")


class Net:
    """stops of cities; lines given as (route, direction, f, [stops])"""
    def __init__(self, nodes, modes, lines):
        T = ExtendedEdgesType
        self.city = [CityNode(i, nodes[i]) for i in range(len(nodes))]
        self.stop = [StopNode(10 + i, modes[i][1], self.city[modes[i][0]]) for i in range(len(modes))]
        self.walk = [ExtendedEdge(0, s, s.city_node, 1, INF, T.ACCESS) for s in self.stop]
        self.on = []
        self.board = []
        self.alight = []
        self.ride = []
        n = 100
        for route, direction, f, stops in lines:
            prev = None
            for k in range(len(stops)):
                s = self.stop[stops[k]]
                r = RouteNode(n, route, direction, s, prev)
                n += 1
                self.on.append(r)
                self.board.append(ExtendedEdge(0, s, r, 0, f, T.BOARDING))
                self.alight.append(ExtendedEdge(0, r, s, 1, INF, T.ALIGHTING))
                if k > 0:
                    self.ride.append(ExtendedEdge(0, prev, r, 1, INF, T.ROUTE))
                prev = r


def nest(rows):
    """rows (origin, destination, key, value) as origin -> destination -> key -> value"""
    d = defaultdict(lambda: defaultdict(dict))
    for o, t, k, v in rows:
        d[o][t][k] = v
    return d


def succ(rows):
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    for o, t, k, v in rows:
        d[o][t][k] = v
    return d


def loads(rows):
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for o, t, k, v in rows:
        d[o][t][k] = v
    return d


def freq(rows):
    d = defaultdict(float)
    for k, v in rows:
        d[k] = v
    return d


def trips(rows):
    d = defaultdict(lambda: defaultdict(float))
    for o, t, v in rows:
        d[o][t] = v
    return d


def table(d, lines, stops):
    return [d[r][k][s] for r in lines for k in ["I", "R"] for s in stops]


def rows(lines, stops, *known):
    """the expected table: the known (line, direction, stop, value), zero elsewhere"""
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for r, k, s, v in known:
        d[r][k][s] = v
    return table(d, lines, stops)


def probe_common(n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, f, f2, x):
    if not (f > 0 and f2 > 0 and x > 0 and one.id != two.id):
        return None
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 1, [0, 1]), (two, "R", 1, [0, 1])])
    a, b = net.city
    s, t = net.stop
    suc = succ([(a, b, s, [net.board[0], net.board[2]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[2], [net.ride[1]]),
                (a, b, net.on[1], [net.alight[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, t, [net.walk[1]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, x)]), nest([(a, b, s, [])]), suc, nest([(a, b, s, 100)]), freq([(one.id, f), (two.id, f2)]))
    lines = [one.id, two.id]
    return table(z, lines, net.stop), table(v, lines, net.stop), table(load, lines, net.stop)


def spec_common(n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, f, f2, x):
    if not (f > 0 and f2 > 0 and x > 0 and one.id != two.id):
        return None
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 1, [0, 1]), (two, "R", 1, [0, 1])])
    s, t = net.stop
    y = x / (f + f2)
    lines = [one.id, two.id]
    return (rows(lines, net.stop, (one.id, "I", s, y), (two.id, "R", s, y)), rows(lines, net.stop, (one.id, "I", t, y), (two.id, "R", t, y)), rows(lines, net.stop, (one.id, "I", s, y), (two.id, "R", s, y)))


def probe_transfer(n1: Node, n2: Node, n3: Node, n4: Node, bus: TransportMode, one: Route, two: Route, f, f2, x):
    if not (f > 0 and f2 > 0 and x > 0 and one.id != two.id):
        return None
    net = Net([n1, n2, n3, n4], [(0, bus), (1, bus), (2, bus), (3, bus)], [(one, "I", 1, [0, 1, 2]), (two, "I", 1, [2, 3])])
    a, m, c, b = net.city
    s, u, w, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.ride[1]]), (a, b, net.on[2], [net.alight[2]]),
                (a, b, w, [net.board[3]]), (a, b, net.on[3], [net.ride[2]]), (a, b, net.on[4], [net.alight[4]]), (a, b, t, [net.walk[3]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, x)]), nest([(a, b, s, [])]), suc, nest([(a, b, s, 100)]), freq([(one.id, f), (two.id, f2)]))
    lines = [one.id, two.id]
    return table(z, lines, net.stop), table(v, lines, net.stop), table(load, lines, net.stop)


def spec_transfer(n1: Node, n2: Node, n3: Node, n4: Node, bus: TransportMode, one: Route, two: Route, f, f2, x):
    if not (f > 0 and f2 > 0 and x > 0 and one.id != two.id):
        return None
    net = Net([n1, n2, n3, n4], [(0, bus), (1, bus), (2, bus), (3, bus)], [(one, "I", 1, [0, 1, 2]), (two, "I", 1, [2, 3])])
    s, u, w, t = net.stop
    lines = [one.id, two.id]
    return (rows(lines, net.stop, (one.id, "I", s, x / f), (two.id, "I", w, x / f2)), rows(lines, net.stop, (one.id, "I", w, x / f), (two.id, "I", t, x / f2)),
            rows(lines, net.stop, (one.id, "I", s, x / f), (one.id, "I", u, x / f), (two.id, "I", w, x / f2)))


def probe_stops(n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, s1):
    if not (f > 0 and f2 > 0 and x > 0 and one.id != two.id and 0 < s1 < 100):
        return None
    net = Net([n1, n2], [(0, bus), (0, metro), (1, bus), (1, metro)], [(one, "I", 1, [0, 2]), (two, "R", 1, [1, 3])])
    a, b = net.city
    s, r, t, q = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, t, [net.walk[2]]),
                (a, b, r, [net.board[2]]), (a, b, net.on[2], [net.ride[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, q, [net.walk[3]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, x)]), nest([(a, b, s, []), (a, b, r, [])]), suc,
                                                       nest([(a, b, s, s1), (a, b, r, 100 - s1)]), freq([(one.id, f), (two.id, f2)]))
    lines = [one.id, two.id]
    return table(z, lines, net.stop), table(v, lines, net.stop), table(load, lines, net.stop)


def spec_stops(n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, f, f2, x, s1):
    if not (f > 0 and f2 > 0 and x > 0 and one.id != two.id and 0 < s1 < 100):
        return None
    net = Net([n1, n2], [(0, bus), (0, metro), (1, bus), (1, metro)], [(one, "I", 1, [0, 2]), (two, "R", 1, [1, 3])])
    s, r, t, q = net.stop
    i, j = x * s1 / 100 / f, x * (100 - s1) / 100 / f2
    lines = [one.id, two.id]
    return (rows(lines, net.stop, (one.id, "I", s, i), (two.id, "R", r, j)), rows(lines, net.stop, (one.id, "I", t, i), (two.id, "R", q, j)), rows(lines, net.stop, (one.id, "I", s, i), (two.id, "R", r, j)))


def probe_pairs(n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, y):
    if not (f > 0 and x > 0 and y > 0):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", 1, [0, 1, 2])])
    a, c, b = net.city
    s, u, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.ride[1]]), (a, b, net.on[2], [net.alight[2]]), (a, b, t, [net.walk[2]]),
                (c, b, u, [net.board[1]]), (c, b, net.on[1], [net.ride[1]]), (c, b, net.on[2], [net.alight[2]]), (c, b, t, [net.walk[2]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, x), (c, b, y)]), nest([(a, b, s, []), (c, b, u, [])]), suc,
                                                       nest([(a, b, s, 100), (c, b, u, 100)]), freq([(one.id, f)]))
    lines = [one.id]
    return table(z, lines, net.stop), table(v, lines, net.stop), table(load, lines, net.stop)


def spec_pairs(n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, f, x, y):
    if not (f > 0 and x > 0 and y > 0):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", 1, [0, 1, 2])])
    s, u, t = net.stop
    lines = [one.id]
    return (rows(lines, net.stop, (one.id, "I", s, x / f), (one.id, "I", u, y / f)), rows(lines, net.stop, (one.id, "I", t, (x + y) / f)), rows(lines, net.stop, (one.id, "I", s, x / f), (one.id, "I", u, (x + y) / f)))


def probe_sections(one: Route, two: Route, x, y, s1, s2, a: Node, b: Node):
    if not (x >= 0 and y >= 0 and s1 >= 0 and s2 >= 0 and one.id != two.id and a is not b):
        return None
    load = loads([(one.id, "I", a, x), (one.id, "I", b, y), (one.id, "R", b, s1), (two.id, "R", a, s2)])
    m = Assignment.most_loaded_section(load)
    return [k for k in m], m[one.id], m[two.id]


def spec_sections(one: Route, two: Route, x, y, s1, s2, a: Node, b: Node):
    if not (x >= 0 and y >= 0 and s1 >= 0 and s2 >= 0 and one.id != two.id and a is not b):
        return None
    return [one.id, two.id], max(x, y, s1), s2


def probe_idle(n1: Node, n2: Node, bus: TransportMode, one: Route, f):
    if not f > 0:
        return None
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 1, [0, 1])])
    a, b = net.city
    s, t = net.stop
    suc = succ([(a, b, s, [net.board[0]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[1], [net.alight[1]]), (a, b, t, [net.walk[1]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, 0)]), nest([(a, b, s, [])]), suc, nest([(a, b, s, 100)]), freq([(one.id, f)]))
    lines = [one.id]
    return table(z, lines, net.stop), table(v, lines, net.stop), table(load, lines, net.stop)


def spec_idle(n1: Node, n2: Node, bus: TransportMode, one: Route, f):
    if not f > 0:
        return None
    return [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]


def probe_rejoin(n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, three: Route, f, f2, f3, x):
    if not (f > 0 and f2 > 0 and f3 > 0 and x > 0 and one.id != two.id and one.id != three.id and two.id != three.id):
        return None
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", 1, [0, 1]), (two, "R", 1, [0, 1]), (three, "R", 1, [1, 2]), (two, "I", 1, [1, 2])])
    a, c, b = net.city
    s, u, t = net.stop
    suc = succ([(a, b, s, [net.board[0], net.board[2]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[2], [net.ride[1]]),
                (a, b, net.on[1], [net.alight[1]]), (a, b, net.on[3], [net.alight[3]]),
                (a, b, u, [net.board[4], net.board[6]]), (a, b, net.on[4], [net.ride[2]]), (a, b, net.on[6], [net.ride[3]]),
                (a, b, net.on[5], [net.alight[5]]), (a, b, net.on[7], [net.alight[7]]), (a, b, t, [net.walk[2]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, x)]), nest([(a, b, s, [])]), suc, nest([(a, b, s, 100)]),
                                                       freq([(one.id, f), (two.id, f2), (three.id, f3)]))
    return ([z[one.id]["I"][s], z[two.id]["R"][s], z[three.id]["R"][u], z[two.id]["I"][u], z[one.id]["R"][s], z[two.id]["I"][s]],
            [v[one.id]["I"][u], v[two.id]["R"][u], v[three.id]["R"][t], v[two.id]["I"][t], v[two.id]["I"][u]],
            [load[one.id]["I"][s], load[two.id]["R"][s], load[three.id]["R"][u], load[two.id]["I"][u]])


def spec_rejoin(n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, three: Route, f, f2, f3, x):
    if not (f > 0 and f2 > 0 and f3 > 0 and x > 0 and one.id != two.id and one.id != three.id and two.id != three.id):
        return None
    y, w = x / (f + f2), x / (f2 + f3)
    return [y, y, w, w, 0, 0], [y, y, w, w, 0], [y, y, w, w]


def probe_dead(n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, f, x):
    if not (f > 0 and x > 0 and one.id != two.id):
        return None
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 1, [0, 1]), (two, "R", 0, [0, 1])])
    a, b = net.city
    s, t = net.stop
    suc = succ([(a, b, s, [net.board[0], net.board[2]]), (a, b, net.on[0], [net.ride[0]]), (a, b, net.on[2], [net.ride[1]]),
                (a, b, net.on[1], [net.alight[1]]), (a, b, net.on[3], [net.alight[3]]), (a, b, t, [net.walk[1]])])
    z, v, load = Assignment.get_alighting_and_boarding(trips([(a, b, x)]), nest([(a, b, s, [])]), suc, nest([(a, b, s, 100)]), freq([(one.id, f), (two.id, 0)]))
    return [d[k][w][i] for d, i in [(z, s), (v, t), (load, s)] for k, w in [(one.id, "I"), (two.id, "R")]]


def spec_dead(n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, f, x):
    if not (f > 0 and x > 0 and one.id != two.id):
        return None
    return [x / f, 0, x / f, 0, x / f, 0]
