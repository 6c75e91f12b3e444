from sidermit.city import Demand, Graph
from sidermit.exceptions import *


def probe_new_total(g: Graph):
    return Demand(g).get_total_trips()


def spec_new_total(g: Graph):
    return 0


def probe_new_cells(g: Graph, p, q):
    m = Demand(g).get_matrix()
    return p in m and q in m[p], m[p][q] if p in m and q in m[p] else 0


def spec_new_cells(g: Graph, p, q):
    ids = [int(x.id) for x in g.get_nodes()]
    return p in ids and q in ids, 0


def probe_delta(d: Demand, o, t, v):
    total = d.get_total_trips()
    old = d.get_matrix()[o][t]
    d.change_vij(o, t, v)
    return d.get_total_trips() - total - (d.get_matrix()[o][t] - old)


def spec_delta(d: Demand, o, t, v):
    m = d.get_matrix()
    if v < 0:
        raise TripsValueIsNotValidException("")
    if not m.get(o):
        raise OriginIdDoesNotFoundException("")
    if t not in m[o]:
        raise DestinationIdDoesNotFoundException("")
    return 0


def probe_other_cells(d: Demand, o, t, v, p, q):
    d.change_vij(o, t, v)
    return 0 if p == o and q == t else d.get_matrix()[p][q]


def spec_other_cells(d: Demand, o, t, v, p, q):
    m = d.get_matrix()
    if v < 0:
        raise TripsValueIsNotValidException("")
    if not m.get(o):
        raise OriginIdDoesNotFoundException("")
    if t not in m[o]:
        raise DestinationIdDoesNotFoundException("")
    return 0 if p == o and q == t else m[p][q]


def probe_content(g: Graph, matrix: list):
    return Demand.build_from_content(g, matrix).get_total_trips()


def spec_content(g: Graph, matrix: list):
    d = Demand(g)
    nodes = g.get_nodes()
    if len(nodes) != len(matrix):
        raise DemandMatrixIsNotValidException("")
    for i in range(len(matrix)):
        if len(nodes) != len(matrix[i]):
            raise DemandMatrixIsNotValidException("")
        for j in range(len(matrix[i])):
            if matrix[i][j] < 0:
                raise VijIsNotValidException("")
            d.change_vij(nodes[i].id, nodes[j].id, matrix[i][j])
    return d.get_total_trips()


ATOMIC_PROBES = ("delta",)
