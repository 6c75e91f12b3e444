from sidermit.city import Graph
from sidermit.exceptions import *
from sidermit.publictransportsystem import TransportMode
from sidermit.publictransportsystem.network import Route, RouteType, TransportNetwork


def keep(sequence):
    """stands for Route.sequences_to_list (C15): the text itself, an empty list when there is none"""
    if sequence == "" or sequence is None:
        return []
    return sequence


STUB = {"Route.sequences_to_list": "keep"}


def text(ids):
    return ",".join(str(i) for i in ids)


def show(r):
    return r.mode, r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r, r._type


def two_way(mode, there, stops):
    return mode, text(there), text(there[::-1]), text(stops), text(stops[::-1]), RouteType.PREDEFINED


def probe_circular(g: Graph, m: TransportMode):
    return [show(r) for r in TransportNetwork(g).get_circular_routes(m)]


def spec_circular(g: Graph, m: TransportMode):
    zs = g.get_zones()
    if len(zs) < 2:
        raise CircularRouteIsNotValidException("")
    ring = [z.subcenter.id for z in zs] + [zs[0].subcenter.id]
    back = [zs[len(zs) - 1 - k].subcenter.id for k in range(len(zs))] + [zs[len(zs) - 1].subcenter.id]
    ring = text(ring)
    back = text(back)
    return [(m, ring, [], ring, [], RouteType.CIRCULAR), (m, [], back, [], back, RouteType.CIRCULAR)]


def probe_feeder(g: Graph, m: TransportMode):
    return [show(r) for r in TransportNetwork(g).get_feeder_routes(m)]


def spec_feeder(g: Graph, m: TransportMode):
    out = []
    for z in g.get_zones():
        line = [z.periphery.id, z.subcenter.id]
        out.append(two_way(m, line, line))
    return out


def probe_radial(g: Graph, m: TransportMode, short: bool, express: bool):
    return [show(r) for r in TransportNetwork(g).get_radial_routes(m, short, express)]


def spec_radial(g: Graph, m: TransportMode, short: bool, express: bool):
    out = []
    c = g.get_cbd().id
    for z in g.get_zones():
        p = z.periphery.id
        s = z.subcenter.id
        if short:
            out.append(two_way(m, [s, c], [s, c]))
        elif express:
            out.append(two_way(m, [p, s, c], [p, c]))
        else:
            out.append(two_way(m, [p, s, c], [p, s, c]))
    return out


def probe_mode(g: Graph, m, short: bool, express: bool):
    TransportNetwork(g).get_feeder_routes(m)
    TransportNetwork(g).get_radial_routes(m, short, express)
    return None


def spec_mode(g: Graph, m, short: bool, express: bool):
    if not isinstance(m, TransportMode):
        raise ModeIsNotValidException("")
    return None


def probe_circular_mode(g: Graph, m):
    TransportNetwork(g).get_circular_routes(m)
    return None


def spec_circular_mode(g: Graph, m):
    if len(g.get_zones()) < 2:
        raise CircularRouteIsNotValidException("")
    if not isinstance(m, TransportMode):
        raise ModeIsNotValidException("")
    return None


def probe_ids(g: Graph, m: TransportMode, short: bool, express: bool):
    n = TransportNetwork(g)
    return [r.id for r in n.get_circular_routes(m)], [r.id for r in n.get_feeder_routes(m)], \
        [r.id for r in n.get_radial_routes(m, short, express)]


def spec_ids(g: Graph, m: TransportMode, short: bool, express: bool):
    """a kind prefix, the mode and the zone: no two predefined routes of a city share an identifier"""
    if len(g.get_zones()) < 2:
        raise CircularRouteIsNotValidException("")
    kind = "RS" if short else "RE" if express else "R"
    return ["CIR_I_" + m.name, "CIR_R_" + m.name], ["F_" + m.name + "_" + str(z.id) for z in g.get_zones()], \
        [kind + "_" + m.name + "_" + str(z.id) for z in g.get_zones()]


class Place:
    def __init__(self, id):
        self.id = id


class Area:
    def __init__(self, k):
        self.id = k
        self.periphery = Place("p" + str(k))
        self.subcenter = Place("s" + str(k))


class City:
    """a city of n zones"""
    def __init__(self, n):
        self.zones = [Area(k + 1) for k in range(n)]

    def get_zones(self):
        return self.zones

    def get_n(self):
        return len(self.zones)

    def get_cbd(self):
        return Place("c")


def shown(t, m, short, express):
    return [show(r) for r in t.get_circular_routes(m)], [show(r) for r in t.get_feeder_routes(m)], \
        [show(r) for r in t.get_radial_routes(m, short, express)]


def expected(ks, m, short, express):
    ring = text(["s" + k for k in ks] + ["s" + ks[0]])
    back = text(["s" + k for k in ks[::-1]] + ["s" + ks[len(ks) - 1]])
    circular = [(m, ring, [], ring, [], RouteType.CIRCULAR), (m, [], back, [], back, RouteType.CIRCULAR)]
    feeder = [two_way(m, ["p" + k, "s" + k], ["p" + k, "s" + k]) for k in ks]
    if short:
        radial = [two_way(m, ["s" + k, "c"], ["s" + k, "c"]) for k in ks]
    elif express:
        radial = [two_way(m, ["p" + k, "s" + k, "c"], ["p" + k, "c"]) for k in ks]
    else:
        radial = [two_way(m, ["p" + k, "s" + k, "c"], ["p" + k, "s" + k, "c"]) for k in ks]
    return circular, feeder, radial


def probe_town_2(m: TransportMode, short: bool, express: bool):
    return shown(TransportNetwork(City(2)), m, short, express)


def spec_town_2(m: TransportMode, short: bool, express: bool):
    return expected(["1", "2"], m, short, express)


def probe_town_5(m: TransportMode, short: bool, express: bool):
    return shown(TransportNetwork(City(5)), m, short, express)


def spec_town_5(m: TransportMode, short: bool, express: bool):
    return expected(["1", "2", "3", "4", "5"], m, short, express)


def probe_town_8(m: TransportMode, short: bool, express: bool):
    return shown(TransportNetwork(City(8)), m, short, express)


def spec_town_8(m: TransportMode, short: bool, express: bool):
    return expected(["1", "2", "3", "4", "5", "6", "7", "8"], m, short, express)
