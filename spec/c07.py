from sidermit.city import CBD, Graph, Periphery, Subcenter
from sidermit.exceptions import *


def kind(x):
    if isinstance(x, CBD):
        return "CBD"
    if isinstance(x, Periphery):
        return "P"
    if isinstance(x, Subcenter):
        return "SC"
    return "?"


def probe_nodes(n: int, l: float, g: float, p: float):
    c = Graph.build_from_parameters(n, l, g, p)
    return [(x.id, x.zone_id, kind(x), x.radius, x.angle, x.width) for x in c.get_nodes()]


def spec_nodes(n: int, l: float, g: float, p: float):
    Graph.parameters_validator(n, l, g, p)
    out = [(0, 0, "CBD", 0, 0, p)]
    for k in range(1, n + 1):
        out.append((2 * k - 1, k, "P", l + g * l, 360 / n * (k - 1), p))
        out.append((2 * k, k, "SC", l, 360 / n * (k - 1), p))
    return out


def probe_zones(n: int, l: float, g: float, p: float):
    c = Graph.build_from_parameters(n, l, g, p)
    return [(z.id, z.periphery.id, z.periphery.zone_id, z.periphery.radius, z.subcenter.id, z.subcenter.zone_id, z.subcenter.radius)
            for z in c.get_zones()]


def spec_zones(n: int, l: float, g: float, p: float):
    Graph.parameters_validator(n, l, g, p)
    return [(k, 2 * k - 1, k, l + g * l, 2 * k, k, l) for k in range(1, n + 1)]


def probe_cbd(n: int, l: float, g: float, p: float):
    c = Graph.build_from_parameters(n, l, g, p).get_cbd()
    return c.id, c.x, c.y, c.radius, c.width, c.zone_id


def spec_cbd(n: int, l: float, g: float, p: float):
    Graph.parameters_validator(n, l, g, p)
    return 0, 0, 0, 0, p, 0


def probe_params(n: int, l: float, g: float, p: float, etha, etha_zone, angles, Gi, Hi):
    c = Graph.build_from_parameters(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    return c.get_parameters(), c.get_n()


def spec_params(n: int, l: float, g: float, p: float, etha, etha_zone, angles, Gi, Hi):
    Graph.parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    return (n, l, g, p, etha, etha_zone, angles, Gi, Hi), n


def probe_ids(n: int, l: float, g: float, p: float, etha, etha_zone, angles, Gi, Hi):
    c = Graph.build_from_parameters(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    return [(x.id, x.zone_id, x.width) for x in c.get_nodes()], [(z.id, z.periphery.id, z.subcenter.id) for z in c.get_zones()]


def spec_ids(n: int, l: float, g: float, p: float, etha, etha_zone, angles, Gi, Hi):
    Graph.parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    out = [(0, 0, p)]
    for k in range(1, n + 1):
        out.append((2 * k - 1, k, p))
        out.append((2 * k, k, p))
    return out, [(k, 2 * k - 1, 2 * k) for k in range(1, n + 1)]
