from collections import defaultdict
from typing import List
from sidermit.optimization import OperatorsCost
from sidermit.publictransportsystem import Route, TransportMode


def probe_travel(routes: List[Route], dist: dict, key):
    return OperatorsCost.lines_travel_time(routes, dist)[key]


def km(seq, dist):
    return sum(dist[seq[i]][seq[i + 1]] for i in range(len(seq) - 1))


def spec_travel(routes: List[Route], dist: dict, key):
    t = 0
    for r in routes:
        if r.id == key:
            t = (km(r.nodes_sequence_i, dist) + km(r.nodes_sequence_r, dist)) / r.mode.v
    return t


def probe_cycle(z: dict, v: dict, routes: List[Route], tt: dict, key):
    return OperatorsCost.get_cycle_time(z, v, routes, tt)[key]


def dwell(z, v, bya):
    s = 0
    if bya == 0:
        s = sum(z[x] for x in z) + sum(v[x] for x in v)
    if bya == 1:
        s = sum(max(z[x], v[x]) for x in z) + sum(max(z[x], v[x]) for x in v if x not in z)
    return s


def spec_cycle(z: dict, v: dict, routes: List[Route], tt: dict, key):
    c = 0
    for r in routes:
        if r.id == key:
            c = tt[r.id] + r.mode.t / 3600 * (dwell(z[r.id]["I"], v[r.id]["I"], r.mode.bya) + dwell(z[r.id]["R"], v[r.id]["R"], r.mode.bya))
    return c


def probe_cost(routes: List[Route], ct: dict, f: dict, k: dict):
    return OperatorsCost.get_operators_cost(routes, ct, f, k)


def spec_cost(routes: List[Route], ct: dict, f: dict, k: dict):
    return sum((r.mode.co + r.mode.c1 * k[r.id]) * f[r.id] * ct[r.id] for r in routes)


class Line:
    def __init__(self, id, mode, there, back):
        self.id = id
        self.mode = mode
        self.nodes_sequence_i = there
        self.nodes_sequence_r = back
        self.stops_sequence_i = there
        self.stops_sequence_r = back


def table(rows):
    t = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for line, direction, stop, value in rows:
        t[line][direction][stop] = value
    return t


def streets(a, b, c):
    t = defaultdict(lambda: defaultdict(float))
    for i, j, d in (("0", "1", a), ("1", "0", a), ("1", "2", b), ("2", "1", b), ("2", "0", c), ("0", "2", c)):
        t[i][j] = d
    return t


def lines(m, k):
    return [Line("a", m, ["0", "1", "2"], ["2", "1", "0"]), Line("b", k, ["0", "1", "2", "0"], []), Line("c", m, ["1", "0"], ["0", "2", "1"]),
            Line("d", k, [], ["0", "2", "1", "0"])]


def probe_run(m: TransportMode, k: TransportMode, a: float, b: float, c: float):
    t = OperatorsCost.lines_travel_time(lines(m, k), streets(a, b, c))
    return t["a"], t["b"], t["c"], t["d"], len(t)


def spec_run(m: TransportMode, k: TransportMode, a: float, b: float, c: float):
    return 2 * (a + b) / m.v, (a + b + c) / k.v, (a + c + b) / m.v, (a + b + c) / k.v, 4


def probe_stops(m: TransportMode, k: TransportMode, p: float, q: float, r: float, s: float, u: float, w: float, x: float, y: float):
    if m.bya != 0 or k.bya != 1:
        return None
    if p < 0 or q < 0 or r < 0 or s < 0 or u < 0 or w < 0:
        return None
    up = [("a", "I", "0", p), ("a", "I", "1", q), ("a", "R", "2", r), ("b", "I", "0", p), ("b", "I", "1", q), ("b", "R", "2", r)]
    down = [("a", "I", "1", s), ("a", "I", "2", u), ("a", "R", "0", w), ("b", "I", "1", s), ("b", "I", "2", u), ("b", "R", "2", w)]
    t = OperatorsCost.get_cycle_time(table(up), table(down), lines(m, k), defaultdict(float, [("a", x), ("b", y)]))
    return t["a"], t["b"], t["c"], t["d"], len(t)


def spec_stops(m: TransportMode, k: TransportMode, p: float, q: float, r: float, s: float, u: float, w: float, x: float, y: float):
    if m.bya != 0 or k.bya != 1:
        return None
    if p < 0 or q < 0 or r < 0 or s < 0 or u < 0 or w < 0:
        return None
    return x + m.t / 3600 * (p + q + r + s + u + w), y + k.t / 3600 * (p + max(q, s) + u + max(r, w)), 0, 0, 4


def probe_price(m: TransportMode, k: TransportMode, f: float, g: float, x: float, y: float, p: float, q: float):
    return OperatorsCost.get_operators_cost(lines(m, k), defaultdict(float, [("a", x), ("b", y), ("c", x + y), ("d", 1)]),
                                            defaultdict(float, [("a", f), ("b", g), ("c", 0), ("d", f)]),
                                            defaultdict(float, [("a", p), ("b", q), ("c", p), ("d", p)]))


def spec_price(m: TransportMode, k: TransportMode, f: float, g: float, x: float, y: float, p: float, q: float):
    return (m.co + m.c1 * p) * f * x + (k.co + k.c1 * q) * g * y + (k.co + k.c1 * p) * f
