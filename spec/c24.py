from collections import defaultdict
from typing import Dict

from sidermit.optimization.preoptimization import Assignment, CityNode, StopNode
from sidermit.publictransportsystem import TransportMode


def usable(p, vp, spa, spv):
    return p > 0 and vp > 0 and spa > 0 and spv > 0


def stop(d, c: CityNode):
    return StopNode(2, TransportMode("m", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, d, 1), c)


def split(s1, s2, o, t, lab, p, vp, spa, spv):
    h = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    h[o][t][s1] = []
    h[o][t][s2] = []
    a = Assignment.get_assignment(h, {o: {t: lab}}, p, vp, spa, spv)
    return a[o][t][s1], a[o][t][s2]


def share(n, s1, s2, lab, p, vp, spa, spv):
    if lab[s1] <= lab[s2]:
        d = vp * (lab[s2] - lab[s1]) * spv / spa
        if d >= p / 2:
            return 100, 0
        for x in [p / n * (i + 1 / 2) for i in range(n // 2)]:
            if x > d:
                return (d + x) / p * 100, 100 - (d + x) / p * 100
        return 100, 0
    d = vp * (lab[s1] - lab[s2]) * spv / spa
    x = p / n / 2
    if n % 2 == 1 or d >= x:
        return 0, 100
    return (x - d) / p * 100, 100 - (x - d) / p * 100


def probe_share_1(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(1, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_1(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(1, c)
    return share(1, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_2(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(2, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_2(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(2, c)
    return share(2, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_3(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(3, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_3(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(3, c)
    return share(3, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_4(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(4, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_4(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(4, c)
    return share(4, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_5(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(5, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_5(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(5, c)
    return share(5, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_6(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(6, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_6(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(6, c)
    return share(6, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_7(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(7, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_7(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(7, c)
    return share(7, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_share_8(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(8, c)
    return split(s1, s2, o, t, {s1: a, s2: b}, p, vp, spa, spv)


def spec_share_8(s1: StopNode, c: CityNode, o: CityNode, t: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or s1.mode.d != 1:
        return None
    s2 = stop(8, c)
    return share(8, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)


def probe_one(s1: StopNode, o: CityNode, t: CityNode, lab: Dict[StopNode, float], p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv):
        return None
    h = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    h[o][t][s1] = []
    a = Assignment.get_assignment(h, {o: {t: lab}}, p, vp, spa, spv)
    return a[o][t][s1]


def spec_one(s1: StopNode, o: CityNode, t: CityNode, lab: Dict[StopNode, float], p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv):
        return None
    return 100


# the pairs do not influence each other
def probe_pairs(s1: StopNode, c: CityNode, o1: CityNode, t1: CityNode, o2: CityNode, t2: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or o1 == o2 or s1.mode.d != 1:
        return None
    s2 = stop(1, c)
    h = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    h[o1][t1][s1] = []
    h[o2][t2][s1] = []
    h[o2][t2][s2] = []
    x = Assignment.get_assignment(h, {o1: {t1: {s1: a}}, o2: {t2: {s1: a, s2: b}}}, p, vp, spa, spv)
    return x[o1][t1][s1], x[o1][t1][s2], x[o2][t2][s1], x[o2][t2][s2]


def spec_pairs(s1: StopNode, c: CityNode, o1: CityNode, t1: CityNode, o2: CityNode, t2: CityNode, a: float, b: float, p: float, vp: float, spa: float, spv: float):
    if not usable(p, vp, spa, spv) or o1 == o2 or s1.mode.d != 1:
        return None
    s2 = stop(1, c)
    u, w = share(1, s1, s2, {s1: a, s2: b}, p, vp, spa, spv)
    return 100, 0, u, w
