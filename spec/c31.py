from typing import Dict, List, Tuple
import oracle
from sidermit.exceptions import *
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import Passenger, TransportNetwork
from sidermit.optimization import Optimizer


def probe_better(runs: List[Tuple[List[float], bool, int, str, float, float]]):
    if any(not r[5] < float("inf") for r in runs):
        return None
    return Optimizer.get_better_result(runs)


def fine(run):
    return run[2] not in (0, 3, -1) and abs(run[4]) < 0.001 and all(f >= 0 for f in run[0])


def spec_better(runs: List[Tuple[List[float], bool, int, str, float, float]]):
    best = None
    top = float("inf")
    if any(not r[5] < float("inf") for r in runs):
        return None
    for r in runs:
        if fine(r) and r[5] < top:
            best = (r[0], r[1], r[2], r[3], r[4], r[5])
            top = r[5]
    return best


def probe_one(x: List[float], ok: bool, status: int, message: str, violation: float, fun: float):
    return Optimizer.get_better_result([(x, ok, status, message, violation, fun)]) if fun < float("inf") else None


def spec_one(x: List[float], ok: bool, status: int, message: str, violation: float, fun: float):
    r = (x, ok, status, message, violation, fun)
    return r if fine(r) and fun < float("inf") else None


def probe_two(x: List[float], s1: int, v1: float, f1: float, y: List[float], s2: int, v2: float, f2: float):
    if not (f1 < float("inf") and f2 < float("inf")):
        return None
    return Optimizer.get_better_result([(x, True, s1, "a", v1, f1), (y, False, s2, "b", v2, f2)])


def spec_two(x: List[float], s1: int, v1: float, f1: float, y: List[float], s2: int, v2: float, f2: float):
    a, b = (x, True, s1, "a", v1, f1), (y, False, s2, "b", v2, f2)
    if not (f1 < float("inf") and f2 < float("inf")):
        return None
    if fine(a):
        return b if fine(b) and f2 < f1 else a
    return b if fine(b) else None


def probe_status(x: List[float], ok: bool, status: int, message: str, violation: float, fun: float):
    return Optimizer.status_optimization((x, ok, status, message, violation, fun))


def spec_status(x: List[float], ok: bool, status: int, message: str, violation: float, fun: float):
    if any(f < -0.1 for f in x):
        raise NegativeFrequencyException()
    if abs(violation) > 0.1:
        raise ConstraintViolationException()
    if status in (0, 3):
        raise NoOptimalSolutionFoundException()
    return True


def probe_none():
    return Optimizer.status_optimization(None)


def spec_none():
    raise NoOptimalSolutionFoundException()


def probe_close(o: Optimizer, a: List[float], b: List[float], tol: float):
    if len(a) != len(b):
        return None
    return o.external_optimization_tolerance(a, b, tol)


def spec_close(o: Optimizer, a: List[float], b: List[float], tol: float):
    if len(a) != len(b):
        return None
    return sum(abs(a[i] - b[i]) for i in range(len(a))) < tol


class Run:
    def __init__(self, x, status, violation, fun):
        self.x = x
        self.success = True
        self.status = status
        self.message = "m"
        self.constr_violation = violation
        self.fun = fun


def start(self, graph, demand, passenger, network, f=None):
    self.f_opt = [oracle.start(graph, demand, passenger, network, key) for key in ("a", "b")]
    self.lines_position = {0: "a", 1: "b"}
    self.given = (graph, demand, passenger, network, f["a"], f["b"])


def solved(given):
    return Run([oracle.xa(given), oracle.xb(given)], oracle.status(given), oracle.violation(given), min(oracle.fun(given), 1000000))


def solve(self):
    return solved(self.given)


def check(better):
    return True


STUB_FOR = {"ends": {"Optimizer.__init__": "begin", "Optimizer.internal_optimization": "halve"}, "halve": {"Optimizer.__init__": "begin", "Optimizer.internal_optimization": "halve"}, "swing": {"Optimizer.__init__": "begin", "Optimizer.internal_optimization": "swing"}, "bad": {"Optimizer.__init__": "begin", "Optimizer.internal_optimization": "bad"},
            "whole": {"Optimizer.__init__": "start", "Optimizer.external_optimization": "outcome", "Optimizer.string_network_optimization": "text"},
            "once": {"Optimizer.__init__": "start", "Optimizer.internal_optimization": "solve"}, "again": {"Optimizer.__init__": "start", "Optimizer.internal_optimization": "solve", "Optimizer.status_optimization": "check"}, "twice": {"Optimizer.__init__": "start", "Optimizer.internal_optimization": "solve", "Optimizer.status_optimization": "check"}, "fixed": {"Optimizer.__init__": "start", "Optimizer.internal_optimization": "same", "Optimizer.status_optimization": "check"}}


def probe_once(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float):
    return Optimizer.external_optimization(g, d, who, net, f, tol, 0)


def spec_once(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float):
    r = solved((g, d, who, net, f["a"], f["b"]))
    best = clean([row(r)])
    if best is None:
        raise NoOptimalSolutionFoundException()
    return best


def row(r):
    return (r.x, r.success, r.status, r.message, r.constr_violation, r.fun)


def clean(rows):
    r = Optimizer.get_better_result(rows)
    if r is None:
        return None
    return ([0 if v < 1 / 24 else v for v in r[0]], r[1], r[2], r[3], r[4], r[5])


WHILE = {"halve": 10, "swing": 12, "bad": 6, "ends": 7, "once": 3, "again": 4, "twice": 5, "fixed": 4}


def far(a, b, tol):
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) >= tol


def first(g, d, who, net):
    return [oracle.start(g, d, who, net, "a"), oracle.start(g, d, who, net, "b")]


def probe_again(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float):
    return Optimizer.external_optimization(g, d, who, net, f, tol, 1)


def spec_again(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float):
    r = solved((g, d, who, net, f["a"], f["b"]))
    if not far(first(g, d, who, net), r.x, tol):
        return clean([row(r)])
    return clean([row(r), row(solved((g, d, who, net, r.x[0], r.x[1])))])


def probe_twice(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float):
    return Optimizer.external_optimization(g, d, who, net, f, tol, 2)


def spec_twice(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float):
    r = solved((g, d, who, net, f["a"], f["b"]))
    if not far(first(g, d, who, net), r.x, tol):
        return clean([row(r)])
    q = solved((g, d, who, net, r.x[0], r.x[1]))
    if not far(r.x, q.x, tol):
        return clean([row(r), row(q)])
    return clean([row(r), row(q), row(solved((g, d, who, net, q.x[0], q.x[1])))])


def same(self):
    g, d, who, net, a, b = self.given
    return Run([a, b], oracle.status(self.given), oracle.violation(self.given), min(oracle.fun(self.given), 1000000))


def probe_fixed(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float]):
    return Optimizer.external_optimization(g, d, who, net, f, 0.5)


def spec_fixed(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float]):
    x, k = [f["a"], f["b"]], (g, d, who, net, f["a"], f["b"])
    r = row(Run(x, oracle.status(k), oracle.violation(k), min(oracle.fun(k), 1000000)))
    return clean([r, r])


def outcome(g, d, who, net, f=None, tolerance=0.01, number_of_iteration=None):
    return oracle.best(g, d, who, net, f["a"], tolerance, number_of_iteration)


def text(self, res):
    return "m"


def probe_whole(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float, n: int):
    o = Optimizer.network_optimization(g, d, who, net, f, tol, n)
    return o.get_optimization_value(), o.given


def spec_whole(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float], tol: float, n: int):
    return outcome(g, d, who, net, f, tol, n), (g, d, who, net, f["a"], f["b"])
ANY_ERROR = ("status", "none", "once")


def begin(self, graph, demand, passenger, network, f=None):
    self.f_opt = [8, 8]
    self.lines_position = {0: "a", 1: "b"}
    self.given = [f["a"], f["b"]]
    self.log = demand.log
    demand.log.append([f["a"], f["b"]])


def halve(self):
    a, b = self.given
    return Run([a / 2, b], 1, 0, a)


def probe_halve(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    out = []
    for tol, n in ((1, 7), (1, 2), (1, 0), (0.5, 7), (4, 3), (5, 3)):
        d.log = []
        best = Optimizer.external_optimization(g, d, who, net, {"a": 8, "b": 8}, tol, n)
        out.append((best, list(d.log)))
    return out


def probe_ends(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    d.log = []
    return Optimizer.external_optimization(g, d, who, net, {"a": 8, "b": 8}, 1), list(d.log)


def spec_ends(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    return ([0.5, 8], True, 1, "m", 0, 1), chain(8, 4, 2, 1)


def chain(*values):
    return [[a, 8] for a in values]


def spec_halve(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    return [(([0.5, 8], True, 1, "m", 0, 1), chain(8, 4, 2, 1)), (([1, 8], True, 1, "m", 0, 2), chain(8, 4, 2)),
            (([4, 8], True, 1, "m", 0, 8), chain(8)), (([0.25, 8], True, 1, "m", 0, 0.5), chain(8, 4, 2, 1, 0.5)),
            (([2, 8], True, 1, "m", 0, 4), chain(8, 4)), (([4, 8], True, 1, "m", 0, 8), chain(8))]


def swing(self):
    """the frequencies change places and drift"""
    a, b = self.given
    n = len(self.log)
    if n == 1:
        return Run([4, 12], 1, 0.0005, 50)
    if n == 2:
        return Run([12, 4], 0, 0, 10)
    if n == 3:
        return Run([4, 12], 2, -0.0015, 20)
    if n == 4:
        return Run([12, -0.001], 1, 0, 30)
    if n == 5:
        return Run([0.04, 12], 2, -0.0005, 40)
    return Run([0.042, 12], 1, 0, 40)


def probe_swing(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    out = []
    for n in (0, 1, 4, 5, 9):
        d.log = []
        best = Optimizer.external_optimization(g, d, who, net, {"a": 6, "b": 7}, 0.1, n)
        out.append((best, list(d.log)))
    return out


def spec_swing(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    first, last = ([4, 12], True, 1, "m", 0.0005, 50), ([0, 12], True, 2, "m", -0.0005, 40)
    tried = [[6, 7], [4, 12], [12, 4], [4, 12], [12, -0.001], [0.04, 12]]
    return [(first, tried[:1]), (first, tried[:2]), (last, tried[:5]), (last, tried), (last, tried)]


def bad(self):
    return Run([self.given[0] + 1, 3], 0 if len(self.log) < 3 else 1, 0 if len(self.log) < 3 else 0.002, 1)


def probe_bad(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    d.log = []
    try:
        return Optimizer.external_optimization(g, d, who, net, {"a": 8, "b": 3}, 0.5, 3), list(d.log)
    except NoOptimalSolutionFoundException:
        return "none", list(d.log)


def spec_bad(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    return "none", [[8, 3], [9, 3], [10, 3], [11, 3]]


def check_run(x, status, violation):
    try:
        return Optimizer.status_optimization((x, True, status, "m", violation, 1))
    except NegativeFrequencyException:
        return "negative"
    except ConstraintViolationException:
        return "violation"
    except NoOptimalSolutionFoundException:
        return "none"


def probe_verdicts():
    return [check_run([1, 2], 1, 0), check_run([0, -0.1], 2, 0.1), check_run([1, -0.11], 1, 0), check_run([-0.2, 1], 1, 0), check_run([1], 1, 0.11), check_run([1], 1, -0.11),
            check_run([1, 2], 0, 0), check_run([1, 2], 3, 0), check_run([1, 2], 2, -0.1)]


def spec_verdicts():
    return [True, True, "negative", "negative", "violation", "violation", "none", "none", True]


def probe_distance(o: Optimizer):
    return [o.external_optimization_tolerance([1, 2, 3], [2, 1, 3], 2), o.external_optimization_tolerance([1, 2, 3], [2, 1, 3], 2.5),
            o.external_optimization_tolerance([1, 2, 3], [1, 2, 5]), o.external_optimization_tolerance([1, 2, 3], [1, 2, 3.005]), o.external_optimization_tolerance([], [], 0.01),
            o.external_optimization_tolerance([0.5, 2], [0.25, 2], 0.25), o.f_distance([1, 2, 3], [3, 1, 3])]


def spec_distance(o: Optimizer):
    return [False, True, False, True, True, False, 3]
