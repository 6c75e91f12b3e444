from sidermit.city import Demand, Graph, CBD, Periphery, Subcenter
from sidermit.exceptions import *


def rates(n, y, a, alpha, beta):
    yz = y / n
    if n == 1:
        return alpha * a * yz, (1 - alpha) * a * yz, 0, (1 - a) * yz, 0
    rest = 1 - alpha - beta
    return (alpha * a * yz, beta * a * yz, rest * a * yz / (n - 1),
            (1 - a) * yz * alpha / (1 - beta), (1 - a) * yz * rest / (1 - beta) / (n - 1))


def cell(o, t, n, y, a, alpha, beta):
    pc, ps, po, sc, so = rates(n, y, a, alpha, beta)
    if isinstance(o, Periphery):
        if isinstance(t, CBD):
            return pc
        if isinstance(t, Subcenter):
            return ps if o.zone_id == t.zone_id else po
    if isinstance(o, Subcenter):
        if isinstance(t, CBD):
            return sc
        if isinstance(t, Subcenter) and o.zone_id != t.zone_id:
            return so
    return None


def set_cell(self, o, d, v):
    """what C02 establishes of Demand.change_vij for existing cells: records one arbitrary cell"""
    if o == ANY_origin and d == ANY_destination:
        self.total_trips = v


STUB = {"Demand.change_vij": "set_cell"}


def probe_cells(g: Graph, y, a, alpha, beta):
    if g.get_n() < 1:
        return None
    return Demand.build_from_parameters(g, y, a, alpha, beta).total_trips


def spec_cells(g: Graph, y, a, alpha, beta):
    if g.get_n() < 1:
        return None
    Demand.parameters_validator(y, a, alpha, beta)
    v = 0
    for o in g.get_nodes():
        for t in g.get_nodes():
            x = cell(o, t, g.get_n(), y, a, alpha, beta)
            if x is not None and o.id == ANY_origin and t.id == ANY_destination:
                v = x
    return v
