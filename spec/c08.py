from sidermit.city.graph import CBD, Edge, Graph, Periphery, Subcenter
from sidermit.exceptions import *


def street(n, i, j):
    for k in range(1, n + 1):
        if i == 2 * k - 1 and j == 2 * k or i == 2 * k and j == 2 * k - 1:
            return True
        if i == 2 * k and j == 0 or i == 0 and j == 2 * k:
            return True
        if n > 1:
            t = 2 * k + 2 if k < n else 2
            if i == 2 * k and j == t or i == t and j == 2 * k:
                return True
    return False


def probe_streets(n: int, l: float, g: float, p: float, i: int, j: int):
    return Graph.build_from_parameters(n, l, g, p).edge_exist(i, j)


def spec_streets(n: int, l: float, g: float, p: float, i: int, j: int):
    Graph.parameters_validator(n, l, g, p)
    return street(n, i, j)


def probe_count(n: int, l: float, g: float, p: float):
    return len(Graph.build_from_parameters(n, l, g, p).get_edges())


def spec_count(n: int, l: float, g: float, p: float):
    Graph.parameters_validator(n, l, g, p)
    if n < 2:
        return 4 * n
    if n == 2:
        return 10
    return 6 * n


def probe_ids(n: int, l: float, g: float, p: float):
    return [e.id for e in Graph.build_from_parameters(n, l, g, p).get_edges()]


def spec_ids(n: int, l: float, g: float, p: float):
    """no two edges share an identifier: they are numbered 1, 2, ... in order"""
    Graph.parameters_validator(n, l, g, p)
    if n == 1:
        return [1, 2, 3, 4]
    if n == 2:
        return [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
    out = []
    for k in range(n):
        for i in range(1, 7):
            out.append(6 * k + i)
    return out


def probe_exists(g: Graph, i, j):
    return g.edge_exist(i, j)


def spec_exists(g: Graph, i, j):
    return any(e.node1.id == i and e.node2.id == j for e in g.get_edges())


def probe_edge(k, a, b):
    e = Edge(k, a, b)
    return e.id, e.node1, e.node2


def spec_edge(k, a, b):
    if k is None:
        raise EdgeIdIsNotValidException("")
    if isinstance(a, Periphery) and (isinstance(b, Periphery) or isinstance(b, CBD)):
        raise EdgeIsNotAvailableException("")
    if isinstance(a, CBD) and isinstance(b, Periphery):
        raise EdgeIsNotAvailableException("")
    return k, a, b
