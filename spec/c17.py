from sidermit.exceptions import *
from sidermit.publictransportsystem import Route, TransportNetwork, TransportMode


def apart(n):
    ids, routes = n._TransportNetwork__routes_id, n.get_routes()
    return len(ids) != len(routes) or any(ids[i] != routes[i].id for i in range(len(ids)))


def probe_remove_route(n: TransportNetwork, rid):
    if apart(n):
        return None
    n.remove_route(rid)
    return n.get_routes(), n._TransportNetwork__routes_id, n.get_modes()


def spec_remove_route(n: TransportNetwork, rid):
    if apart(n):
        return None
    ids, routes = n._TransportNetwork__routes_id, n.get_routes()
    if rid not in ids:
        raise RouteIdNotFoundException("")
    i = ids.index(rid)
    return routes[:i] + routes[i + 1:], ids[:i] + ids[i + 1:], n.get_modes()


def probe_get_route(n: TransportNetwork, rid):
    if apart(n):
        return None
    return n.get_route(rid)


def spec_get_route(n: TransportNetwork, rid):
    if apart(n):
        return None
    ids, routes = n._TransportNetwork__routes_id, n.get_routes()
    if rid not in ids:
        raise RouteIdNotFoundException("")
    return routes[ids.index(rid)]


def probe_remove_mode_modes(n: TransportNetwork, m: TransportMode):
    n.remove_transport_mode(m)
    return n.get_modes()


def spec_remove_mode_modes(n: TransportNetwork, m: TransportMode):
    out = [x for x in n.get_modes() if x != m]
    for r in list(n.get_routes()):
        if r.mode == m:
            n.remove_route(r.id)
    return out


def probe_remove_mode_routes(n: TransportNetwork, m: TransportMode):
    n.remove_transport_mode(m)
    return n.get_routes(), n._TransportNetwork__routes_id


def spec_remove_mode_routes(n: TransportNetwork, m: TransportMode):
    for r in list(n.get_routes()):
        if r.mode == m:
            n.remove_route(r.id)
    return n.get_routes(), n._TransportNetwork__routes_id


ATOMIC_PROBES = ("remove_route", "get_route")


class City:
    def edge_exist(self, i, j):
        return True


class Line(Route):
    def __init__(self, id, mode):
        self.id = id
        self.mode = mode
        self.nodes_sequence_i = [1, 2]
        self.nodes_sequence_r = [2, 1]


def filled(rows):
    n = TransportNetwork(City())
    for id, mode in rows:
        n.add_route(Line(id, mode))
    return n


def found(n, ids):
    out = []
    for i in ids:
        try:
            out.append(n.get_route(i).id)
        except RouteIdNotFoundException:
            out.append(None)
    return out


def state(n):
    return [r.id for r in n.get_routes()], list(n.get_modes()), found(n, ["a", "b", "c", "d", "e"])


def probe_history_modes(m: TransportMode, k: TransportMode):
    if m == k or m.d != 1 or k.d != 2:
        return None
    m.name = "m"
    k.name = "k"
    n = filled([("a", m), ("b", m), ("c", k), ("d", m), ("e", k)])
    n.remove_transport_mode(m)
    first = state(n)
    n.add_route(Line("a", k))
    n.add_route(Line("d", m))
    n.remove_transport_mode(k)
    second = state(n)
    n.remove_transport_mode(m)
    return first, second, state(n)


def spec_history_modes(m: TransportMode, k: TransportMode):
    if m == k or m.d != 1 or k.d != 2:
        return None
    return (["c", "e"], [k], [None, None, "c", None, "e"]), (["d"], [m], [None, None, None, "d", None]), \
        ([], [], [None, None, None, None, None])


def dropped(n, i):
    try:
        n.remove_route(i)
    except RouteIdNotFoundException:
        return False
    return True


def probe_history_routes(m: TransportMode, k: TransportMode):
    if m == k or m.d != 1 or k.d != 2:
        return None
    m.name = "m"
    k.name = "k"
    n = filled([("a", m), ("b", m), ("c", k), ("d", m)])
    out = [dropped(n, "b"), dropped(n, "b"), dropped(n, "e"), dropped(n, "d")]
    first = state(n)
    n.add_route(Line("b", k))
    n.add_route(Line("e", m))
    return out, first, dropped(n, "a"), state(n), dropped(n, "b"), dropped(n, "c"), state(n)


def spec_history_routes(m: TransportMode, k: TransportMode):
    if m == k or m.d != 1 or k.d != 2:
        return None
    return [True, False, False, True], (["a", "c"], [m, k], ["a", None, "c", None, None]), \
        True, (["c", "b", "e"], [m, k], [None, "b", "c", None, "e"]), True, True, (["e"], [m, k], [None, None, None, None, "e"])
