from sidermit.city import Graph
from sidermit.exceptions import *
from sidermit.publictransportsystem import TransportNetwork, TransportMode, Route, TransportModeManager


def probe_new(g: Graph):
    n = TransportNetwork(g)
    return n.get_routes(), n.get_modes()


def spec_new(g: Graph):
    return [], []


def streets(g, seq):
    for i in range(len(seq) - 1):
        if not g.edge_exist(seq[i], seq[i + 1]):
            raise NodeSequencesIsNotValidException("")


def rule(modes, m):
    if m in modes:
        return
    names = [m.name]
    for x in modes:
        if x.name in names:
            raise AddModeExceptions("")
        names.append(x.name)
    k = len(modes) + 1
    if k > 2 or (k == 2 and m.d != 1 and modes[0].d != 1):
        raise TransportNetworkException("")


def check(n, r):
    streets(n._TransportNetwork__graph_obj, r.nodes_sequence_i)
    streets(n._TransportNetwork__graph_obj, r.nodes_sequence_r)
    if r.id in n._TransportNetwork__routes_id:
        raise RouteIdDuplicatedException("")
    rule(n.get_modes(), r.mode)


def apart(n):
    ids, routes = n._TransportNetwork__routes_id, n.get_routes()
    return len(ids) != len(routes) or any(ids[i] != routes[i].id for i in range(len(ids)))


def probe_routes(n: TransportNetwork, r: Route):
    if apart(n):
        return None
    n.add_route(r)
    return n.get_routes(), n._TransportNetwork__routes_id


def spec_routes(n: TransportNetwork, r: Route):
    if apart(n):
        return None
    check(n, r)
    return n.get_routes() + [r], n._TransportNetwork__routes_id + [r.id]


def probe_modes(n: TransportNetwork, r: Route):
    if apart(n):
        return None
    n.add_route(r)
    return n.get_modes()


def spec_modes(n: TransportNetwork, r: Route):
    if apart(n):
        return None
    check(n, r)
    if r.mode in n.get_modes():
        return n.get_modes()
    return n.get_modes() + [r.mode]


def probe_any(n: TransportNetwork, r):
    if not isinstance(r, Route):
        n.add_route(r)


def spec_any(n: TransportNetwork, r):
    if not isinstance(r, Route):
        raise RouteIsNotvalidException("")


ATOMIC_PROBES = ("routes", "modes")


class City:
    """a city in which the street from 1 to 9 is missing"""
    def edge_exist(self, i, j):
        return not (i == 1 and j == 9)


class Line(Route):
    def __init__(self, id, mode, there, back):
        self.id = id
        self.mode = mode
        self.nodes_sequence_i = there
        self.nodes_sequence_r = back


def tried(n, r):
    try:
        n.add_route(r)
    except NodeSequencesIsNotValidException:
        return "street"
    except RouteIdDuplicatedException:
        return "id"
    except (TransportNetworkException, TransportModeException, AddModeExceptions):
        return "mode"
    return "ok"


def probe_history(m: TransportMode, k: TransportMode):
    if m == k or m.d != 1 or k.d != 2:
        return None
    m.name = "m"
    k.name = "k"
    n = TransportNetwork(City())
    a = Line("a", m, [0, 1, 2], [2, 1, 0])
    c = Line("c", k, [0, 1], [])
    d = Line("d", m, [], [3, 9, 1])
    f = Line("f", k, [1, 2], [2, 1])
    out = [tried(n, a), tried(n, Line("b", k, [0, 1, 2], [2, 1, 9])), tried(n, Line("b", k, [1, 9, 2], [2, 1])),
           tried(n, Line("a", k, [0, 1], [1, 0])), len(n.get_modes()), tried(n, c), tried(n, d), tried(n, Line("c", m, [3, 4], [4, 3])), tried(n, f)]
    return out, [r.id for r in n.get_routes()], n.get_modes(), [n.get_route(i).nodes_sequence_r for i in ("a", "c", "d", "f")]


def spec_history(m: TransportMode, k: TransportMode):
    if m == k or m.d != 1 or k.d != 2:
        return None
    return ["ok", "street", "street", "id", 1, "ok", "ok", "id", "ok"], ["a", "c", "d", "f"], [m, k], [[2, 1, 0], [], [3, 9, 1], [2, 1]]


def probe_limits(m: TransportMode, k: TransportMode, o: TransportMode, p: TransportMode):
    if m == k or m == o or k == o or p == k or p == o or p == m or m.d != 2 or k.d != 1 or o.d != 3 or p.d != 1:
        return None
    m.name = "m"
    k.name = "k"
    o.name = "o"
    p.name = "k"
    n = TransportNetwork(City())
    out = [tried(n, Line("a", m, [0, 1], [1, 0])), tried(n, Line("b", o, [0, 1], [1, 0])), tried(n, Line("b", k, [0, 1], [1, 0])),
           tried(n, Line("c", o, [0, 1], [1, 0])), tried(n, Line("d", p, [0, 1], [1, 0])), tried(n, Line("e", m, [5, 4], [4, 5]))]
    return out, [r.id for r in n.get_routes()], n.get_modes()


def spec_limits(m: TransportMode, k: TransportMode, o: TransportMode, p: TransportMode):
    if m == k or m == o or k == o or p == k or p == o or p == m or m.d != 2 or k.d != 1 or o.d != 3 or p.d != 1:
        return None
    return ["ok", "mode", "ok", "mode", "mode", "ok"], ["a", "b", "e"], [m, k]
