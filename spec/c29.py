from typing import List
from sidermit.city import Graph
from sidermit.optimization import Constrains
from sidermit.publictransportsystem import Route, TransportMode


def probe_sections(routes: List[Route], load: dict):
    return Constrains.most_loaded_section_constrains(routes, load)


def spec_sections(routes: List[Route], load: dict):
    return [load[r.id] - r.mode.kmax for r in routes]


def probe_fmax(g: Graph, routes: List[Route], modes: List[TransportMode], f: dict):
    return Constrains.fmax_constrains(g, routes, modes, f)


def runs(seq, a, b):
    return sum(1 for i in range(len(seq) - 1) if str(a) == str(seq[i]) and str(b) == str(seq[i + 1]))


def spec_fmax(g: Graph, routes: List[Route], modes: List[TransportMode], f: dict):
    out = []
    for e in g.get_edges():
        for m in modes:
            s = 0
            for r in routes:
                if r.mode == m:
                    n = runs(r.nodes_sequence_i, e.node1.id, e.node2.id) + runs(r.nodes_sequence_r, e.node1.id, e.node2.id)
                    s += n * f[r.id] / m.d
            out.append(s - m.fmax / m.d)
    return out


class Place:
    def __init__(self, id):
        self.id = id


class Street:
    def __init__(self, a, b):
        self.id = a + b
        self.node1 = Place(a)
        self.node2 = Place(b)


class City:
    def __init__(self, streets):
        self.streets = streets

    def get_edges(self):
        return self.streets


class Line:
    def __init__(self, id, mode, there, back):
        self.id = id
        self.mode = mode
        self.nodes_sequence_i = there
        self.nodes_sequence_r = back
        self.stops_sequence_i = there
        self.stops_sequence_r = back


def city():
    return City([Street("0", "1"), Street("1", "0"), Street("1", "2"), Street("2", "1"), Street("2", "0")])


def lines(m, k):
    return [Line("a", m, ["0", "1", "2"], ["2", "1", "0"]), Line("b", k, ["1", "2", "0"], ["0", "1"]),
            Line("c", m, ["0", "1", "2", "0"], []), Line("d", m, ["1", "0", "1", "2"], ["2", "1"])]


def probe_streets(m: TransportMode, a: float, b: float, c: float, d: float):
    return Constrains.fmax_constrains(city(), lines(m, m), [m], {"a": a, "b": b, "c": c, "d": d})


def spec_streets(m: TransportMode, a: float, b: float, c: float, d: float):
    k = m.fmax / m.d
    return [(a + b + c + d) / m.d - k, (a + d) / m.d - k, (a + b + c + d) / m.d - k, (a + d) / m.d - k, (b + c) / m.d - k]


def probe_two(m: TransportMode, k: TransportMode, a: float, b: float, c: float, d: float):
    if m == k:
        return None
    return Constrains.fmax_constrains(city(), lines(m, k), [k, m], {"a": a, "b": b, "c": c, "d": d})


def spec_two(m: TransportMode, k: TransportMode, a: float, b: float, c: float, d: float):
    if m == k:
        return None
    p = k.fmax / k.d
    q = m.fmax / m.d
    return [b / k.d - p, (a + c + d) / m.d - q, 0 - p, (a + d) / m.d - q, b / k.d - p, (a + c + d) / m.d - q,
            0 - p, (a + d) / m.d - q, b / k.d - p, c / m.d - q]
