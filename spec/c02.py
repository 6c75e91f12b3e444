from sidermit.city import Demand
from sidermit.exceptions import *


def probe_cell(d: Demand, o, t, v, p, q):
    d.change_vij(o, t, v)
    return d.get_matrix()[p][q]


def spec_cell(d: Demand, o, t, v, p, q):
    m = d.get_matrix()
    if v < 0:
        raise TripsValueIsNotValidException("")
    if not m.get(o):
        raise OriginIdDoesNotFoundException("")
    if t not in m[o]:
        raise DestinationIdDoesNotFoundException("")
    if p == o and q == t:
        return v
    return m[p][q]


def probe_total(d: Demand, o, t, v):
    d.change_vij(o, t, v)
    return d.get_total_trips()


def spec_total(d: Demand, o, t, v):
    m = d.get_matrix()
    if v < 0:
        raise TripsValueIsNotValidException("")
    if not m.get(o):
        raise OriginIdDoesNotFoundException("")
    if t not in m[o]:
        raise DestinationIdDoesNotFoundException("")
    return d.get_total_trips() + v - m[o][t]


ATOMIC_PROBES = ("cell", "total")
