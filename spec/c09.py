import math
from sidermit.city import CBD, Graph
from sidermit.exceptions import *


def probe_xy(r, a):
    return Graph.get_xy(r, a)


def spec_xy(r, a):
    return r * math.cos(a * math.pi / 180), r * math.sin(a * math.pi / 180)


def place(n, l, g, etha, etha_zone, angles, Gi, Hi, k, sub):
    """radius and angle of the periphery / subcenter of zone k (0-based)"""
    a = 360 / n * k if angles is None else angles[k]
    if sub:
        r = l if Gi is None else Gi[k] * l
    else:
        r = l + g * l if Hi is None else Hi[k] * (l + g * l)
    return r, a


def polar(r, a):
    return r * math.cos(a * math.pi / 180), r * math.sin(a * math.pi / 180), r, a


def probe_nodes(n: int, l: float, g: float, p: float, etha, etha_zone, angles: list, Gi: list, Hi: list):
    c = Graph.build_from_parameters(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    return [(x.x, x.y, x.radius, x.angle) for x in c.get_nodes() if not isinstance(x, CBD)]


def spec_nodes(n: int, l: float, g: float, p: float, etha, etha_zone, angles: list, Gi: list, Hi: list):
    Graph.parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    out = []
    for k in range(n):
        r, a = place(n, l, g, etha, etha_zone, angles, Gi, Hi, k, False)
        out.append(polar(r, a))
        r, a = place(n, l, g, etha, etha_zone, angles, Gi, Hi, k, True)
        out.append(polar(r, a))
    return out


def probe_zones(n: int, l: float, g: float, p: float, etha, etha_zone, angles: list, Gi: list, Hi: list):
    c = Graph.build_from_parameters(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    return [((z.periphery.x, z.periphery.y, z.periphery.radius, z.periphery.angle),
             (z.subcenter.x, z.subcenter.y, z.subcenter.radius, z.subcenter.angle)) for z in c.get_zones()]


def spec_zones(n: int, l: float, g: float, p: float, etha, etha_zone, angles: list, Gi: list, Hi: list):
    Graph.parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    out = []
    for k in range(n):
        r, a = place(n, l, g, etha, etha_zone, angles, Gi, Hi, k, False)
        s, b = place(n, l, g, etha, etha_zone, angles, Gi, Hi, k, True)
        out.append((polar(r, a), polar(s, b)))
    return out


def probe_cbd(n: int, l: float, g: float, p: float, etha, etha_zone: int, angles: list, Gi: list, Hi: list):
    c = Graph.build_from_parameters(n, l, g, p, etha, etha_zone, angles, Gi, Hi).get_nodes()[0]
    return c.x, c.y, c.radius, c.angle


def spec_cbd(n: int, l: float, g: float, p: float, etha, etha_zone: int, angles: list, Gi: list, Hi: list):
    Graph.parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    if etha is None:
        return 0, 0, 0, 0
    s, b = place(n, l, g, etha, etha_zone, angles, Gi, Hi, etha_zone - 1, True)
    return polar(etha * s, b)


def probe_lengths(g: Graph, i, j):
    return g.get_edges_distance()[i][j]


def spec_lengths(g: Graph, i, j):
    r = 0
    for e in g.get_edges():
        a = e.node1
        b = e.node2
        if a.id == i and b.id == j:
            r = ((a.x - b.x) ** 2 + (a.y - b.y) ** 2) ** 0.5
    return r
