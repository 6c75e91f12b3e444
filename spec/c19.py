from sidermit.city import Graph
from sidermit.exceptions import *
from sidermit.publictransportsystem import TransportMode
from sidermit.publictransportsystem.network import Route, RouteType, TransportNetwork


def keep(sequence):
    """stands for Route.sequences_to_list (C15): the text itself, an empty list when there is none"""
    if sequence == "" or sequence is None:
        return []
    return sequence


STUB = {"Route.sequences_to_list": "keep"}
# zone k is the k-th one (C07, C10)
RANKED = {"Graph.get_zones": "id"}


def text(ids):
    return ",".join(str(i) for i in ids)


def show(r):
    return r.mode, r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r, r._type


def two_way(mode, there, stops):
    return mode, text(there), text(there[::-1]), text(stops), text(stops[::-1]), RouteType.PREDEFINED


def served(n, jump):
    """every pair of zones once: when the jump is half the ring, a zone and its partner name the same pair"""
    if 2 * jump == n:
        return jump
    return n


def partner(n, k, jump):
    if k + jump < n:
        return k + jump
    return k + jump - n


def probe_diametral(g: Graph, m: TransportMode, jump: int, short: bool, express: bool):
    return [show(r) for r in TransportNetwork(g).get_diametral_routes(m, jump, short, express)]


def spec_diametral(g: Graph, m: TransportMode, jump: int, short: bool, express: bool):
    zs = g.get_zones()
    n = len(zs)
    if jump <= 0 or 2 * jump > n or not isinstance(jump, int):
        raise JumpIsNotValidException("")
    c = g.get_cbd().id
    out = []
    for k in range(served(n, jump)):
        a = zs[k]
        b = zs[partner(n, k, jump)]
        if short:
            line = [a.subcenter.id, c, b.subcenter.id]
            ends = [a.subcenter.id, b.subcenter.id]
        else:
            line = [a.periphery.id, a.subcenter.id, c, b.subcenter.id, b.periphery.id]
            ends = [a.periphery.id, b.periphery.id]
        if express:
            out.append(two_way(m, line, ends))
        else:
            out.append(two_way(m, line, line))
    return out


def probe_tangential(g: Graph, m: TransportMode, jump: int, short: bool, express: bool):
    return [show(r) for r in TransportNetwork(g).get_tangencial_routes(m, jump, short, express)]


def spec_tangential(g: Graph, m: TransportMode, jump: int, short: bool, express: bool):
    zs = g.get_zones()
    n = len(zs)
    if jump <= 0 or 2 * jump > n or not isinstance(jump, int):
        raise JumpIsNotValidException("")
    out = []
    for k in range(served(n, jump)):
        a = zs[k]
        b = zs[partner(n, k, jump)]
        line = [zs[partner(n, k, i)].subcenter.id for i in range(jump + 1)]
        ends = [a.subcenter.id, b.subcenter.id]
        if not short:
            line = [a.periphery.id] + line + [b.periphery.id]
            ends = [a.periphery.id, b.periphery.id]
        if express:
            out.append(two_way(m, line, ends))
        else:
            out.append(two_way(m, line, line))
    return out


def probe_mode(g: Graph, m, jump: int, short: bool, express: bool):
    TransportNetwork(g).get_diametral_routes(m, jump, short, express)
    TransportNetwork(g).get_tangencial_routes(m, jump, short, express)
    return None


def spec_mode(g: Graph, m, jump: int, short: bool, express: bool):
    if not isinstance(m, TransportMode):
        raise ModeIsNotValidException("")
    if jump <= 0 or 2 * jump > len(g.get_zones()) or not isinstance(jump, int):
        raise JumpIsNotValidException("")
    return None


def probe_ids(g: Graph, m: TransportMode, jump: int, short: bool, express: bool):
    n = TransportNetwork(g)
    return [r.id for r in n.get_diametral_routes(m, jump, short, express)], \
        [r.id for r in n.get_tangencial_routes(m, jump, short, express)]


def spec_ids(g: Graph, m: TransportMode, jump: int, short: bool, express: bool):
    """kind and jump, mode, first zone: no two predefined routes of a city share an identifier"""
    n = len(g.get_zones())
    if jump <= 0 or 2 * jump > n or not isinstance(jump, int):
        raise JumpIsNotValidException("")
    kind = ("S" if short else "") + ("E" if express else "") + str(jump)
    return ["D" + kind + "_" + m.name + "_" + str(k + 1) for k in range(served(n, jump))], \
        ["T" + kind + "_" + m.name + "_" + str(k + 1) for k in range(served(n, jump))]


class Place:
    def __init__(self, id):
        self.id = id


class Area:
    def __init__(self, k):
        self.id = k
        self.periphery = Place("p" + str(k))
        self.subcenter = Place("s" + str(k))


class City:
    """a city of n zones"""
    def __init__(self, n):
        self.zones = [Area(k + 1) for k in range(n)]

    def get_zones(self):
        return self.zones

    def get_n(self):
        return len(self.zones)

    def get_cbd(self):
        return Place("c")


def lines_of(n, jump):
    return [[(z.id - 1 + i) % n + 1 for i in range(jump + 1)] for z in City(served(n, jump)).zones]


def tangent(m, n, jump, short, express):
    out = []
    for ks in lines_of(n, jump):
        line = ["s" + str(k) for k in ks]
        if not short:
            line = ["p" + str(ks[0])] + line + ["p" + str(ks[jump])]
        out.append(two_way(m, line, [line[0], line[len(line) - 1]] if express else line))
    return out


def diameter(m, n, jump, short, express):
    out = []
    for ks in lines_of(n, jump):
        line = ["s" + str(ks[0]), "c", "s" + str(ks[jump])]
        if not short:
            line = ["p" + str(ks[0])] + line + ["p" + str(ks[jump])]
        out.append(two_way(m, line, [line[0], line[len(line) - 1]] if express else line))
    return out


def probe_town_5_2(m: TransportMode, short: bool, express: bool):
    t = TransportNetwork(City(5))
    return [show(r) for r in t.get_tangencial_routes(m, 2, short, express)], [show(r) for r in t.get_diametral_routes(m, 2, short, express)]


def spec_town_5_2(m: TransportMode, short: bool, express: bool):
    return tangent(m, 5, 2, short, express), diameter(m, 5, 2, short, express)


def probe_town_4_2(m: TransportMode, short: bool, express: bool):
    t = TransportNetwork(City(4))
    return [show(r) for r in t.get_tangencial_routes(m, 2, short, express)], [show(r) for r in t.get_diametral_routes(m, 2, short, express)]


def spec_town_4_2(m: TransportMode, short: bool, express: bool):
    return tangent(m, 4, 2, short, express), diameter(m, 4, 2, short, express)


def probe_town_7_3(m: TransportMode, short: bool, express: bool):
    t = TransportNetwork(City(7))
    return [show(r) for r in t.get_tangencial_routes(m, 3, short, express)], [show(r) for r in t.get_diametral_routes(m, 3, short, express)]


def spec_town_7_3(m: TransportMode, short: bool, express: bool):
    return tangent(m, 7, 3, short, express), diameter(m, 7, 3, short, express)


def probe_town_8_4(m: TransportMode, short: bool, express: bool):
    t = TransportNetwork(City(8))
    return [show(r) for r in t.get_tangencial_routes(m, 4, short, express)], [show(r) for r in t.get_diametral_routes(m, 4, short, express)]


def spec_town_8_4(m: TransportMode, short: bool, express: bool):
    return tangent(m, 8, 4, short, express), diameter(m, 8, 4, short, express)


def probe_town_3_1(m: TransportMode, short: bool, express: bool):
    t = TransportNetwork(City(3))
    return [show(r) for r in t.get_tangencial_routes(m, 1, short, express)], [show(r) for r in t.get_diametral_routes(m, 1, short, express)]


def spec_town_3_1(m: TransportMode, short: bool, express: bool):
    return tangent(m, 3, 1, short, express), diameter(m, 3, 1, short, express)


def all_ids(t, m, jump):
    return [r.id for r in t.get_tangencial_routes(m, jump, False, False)] + \
        [r.id for r in t.get_tangencial_routes(m, jump, True, False)] + \
        [r.id for r in t.get_tangencial_routes(m, jump, False, True)] + \
        [r.id for r in t.get_tangencial_routes(m, jump, True, True)] + \
        [r.id for r in t.get_diametral_routes(m, jump, False, False)] + \
        [r.id for r in t.get_diametral_routes(m, jump, True, False)] + \
        [r.id for r in t.get_diametral_routes(m, jump, False, True)] + \
        [r.id for r in t.get_diametral_routes(m, jump, True, True)]


def probe_town_ids(m: TransportMode):
    m.name = "m"
    t = TransportNetwork(City(3))
    ids = all_ids(t, m, 1)
    u = TransportNetwork(City(4))
    more = all_ids(u, m, 1) + all_ids(u, m, 2)
    return len(ids), len(more), [b for a in ids for b in ids if a == b] == ids, [b for a in more for b in more if a == b] == more


def spec_town_ids(m: TransportMode):
    return 24, 48, True, True
