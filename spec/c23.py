from collections import defaultdict
from typing import Dict, List
import oracle
from sidermit.exceptions import *
from sidermit.city.graph import Node
from sidermit.publictransportsystem import Route, TransportMode, Passenger
from sidermit.optimization.preoptimization import Hyperpath
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode, RouteNode, ExtendedGraph, ExtendedEdge, ExtendedEdgesType

INF = float("inf")


def tree_of(self):
    return self.net.tree


def edges_of(self):
    return self.net.edges


STUB = {"ExtendedGraph.get_extended_graph_nodes": "tree_of", "ExtendedGraph.get_extended_graph_edges": "edges_of"}


FINITE = ("pa", "pw", "pv", "theta", "theta2", "tat", "tat2", "f", "f2", "w", "w1", "w2", "ride", "ride2", "slow", "fast", "pen")
WHILE = {"line": 8, "two": 10, "swap": 10, "transfer": 12, "zero": 10, "modes": 12, "through": 14, "back": 10}


class Line:
    def __init__(self, n1: Node, n2: Node, bus: TransportMode, one: Route, f, w1, w2, ride, pen):
        self.a, self.b = CityNode(0, n1), CityNode(1, n2)
        self.s, self.t = StopNode(2, bus, self.a), StopNode(3, bus, self.b)
        self.r = RouteNode(4, one, "I", self.s)
        self.q = RouteNode(6, one, "I", self.t, self.r)
        self.all = [self.a, self.s, self.r, self.q, self.t, self.b]
        self.tree = defaultdict(lambda: defaultdict(list))
        self.tree[self.a][self.s] = [self.r]
        self.tree[self.b][self.t] = [self.q]
        T = ExtendedEdgesType
        self.edges = [ExtendedEdge(0, self.a, self.s, w1, INF, T.ACCESS), ExtendedEdge(1, self.s, self.a, w1, INF, T.ACCESS),
                      ExtendedEdge(2, self.b, self.t, w2, INF, T.ACCESS), ExtendedEdge(3, self.t, self.b, w2, INF, T.ACCESS),
                      ExtendedEdge(4, self.s, self.r, 0, f, T.BOARDING), ExtendedEdge(5, self.t, self.q, 0, f, T.BOARDING),
                      ExtendedEdge(6, self.r, self.s, pen, INF, T.ALIGHTING), ExtendedEdge(7, self.q, self.t, pen, INF, T.ALIGHTING),
                      ExtendedEdge(8, self.r, self.q, ride, INF, T.ROUTE)]


def ready(h, bus, pa, pw, pv):
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv


def probe_line(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, pa, pw, pv, theta, tat, f, w1, w2, ride, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and f > 0 and w1 > 0 and w2 > 0 and ride > 0 and pen > 0):
        return None
    net = Line(n1, n2, bus, one, f, w1, w2, ride, pen)
    h.extended_graph_obj.net = net
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    suc, lab, fr = h.build_hyperpath_graph(net.a, net.b)
    return [lab[k] for k in net.all], [suc[k] for k in net.all], [fr[k] for k in net.all]


def spec_line(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, pa, pw, pv, theta, tat, f, w1, w2, ride, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and f > 0 and w1 > 0 and w2 > 0 and ride > 0 and pen > 0):
        return None
    net = Line(n1, n2, bus, one, f, w1, w2, ride, pen)
    bus.theta, bus.tat = theta, tat
    e = net.edges
    walk = w2 * pa / pv
    board = walk + ride + theta * pw / pv / f
    return ([INF, board + tat / 60 * pa / pv, walk + ride, walk, walk, 0], [[], [e[4]], [e[8]], [e[7]], [e[3]], []], [0, f, 0, 0, 0, 0])


class Net:
    """cities a, b, c with stops of one mode; lines given as lists of (route, direction, [stops], [times])"""
    def __init__(self, nodes, modes, lines, walk, pen):
        T = ExtendedEdgesType
        self.city = [CityNode(i, nodes[i]) for i in range(len(nodes))]
        self.stop = []
        self.tree = defaultdict(lambda: defaultdict(list))
        self.edges = []
        for i in range(len(modes)):
            c, mode = modes[i]
            s = StopNode(10 + i, mode, self.city[c])
            self.stop.append(s)
            self.edges.append(ExtendedEdge(0, self.city[c], s, walk[i], INF, T.ACCESS))
            self.edges.append(ExtendedEdge(0, s, self.city[c], walk[i], INF, T.ACCESS))
        self.on = []
        self.board = []
        self.alight = []
        self.ride = []
        n = 100
        for route, direction, f, stops, times in lines:
            prev = None
            for k in range(len(stops)):
                s = self.stop[stops[k]]
                r = RouteNode(n, route, direction, s, prev)
                n += 1
                self.on.append(r)
                self.board.append(ExtendedEdge(0, s, r, 0, f, T.BOARDING))
                self.alight.append(ExtendedEdge(0, r, s, pen, INF, T.ALIGHTING))
                if k > 0:
                    self.ride.append(ExtendedEdge(0, prev, r, times[k - 1], INF, T.ROUTE))
                prev = r
        self.edges += self.board + self.alight + self.ride
        for s in self.stop:
            self.tree[s.city_node][s] = [r for r in self.on if r.stop_node is s]


def run(h, net, o, d):
    h.extended_graph_obj.net = net
    return h.build_hyperpath_graph(net.city[o], net.city[d])


def probe_two(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, f2, w1, w2, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and f2 > 0 and w1 > 0 and w2 > 0 and ride > 0 and ride2 > ride and pen > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", f, [0, 1], [ride]), (two, "I", f2, [0, 1], [ride2])], [w1, w2], pen)
    suc, lab, fr = run(h, net, 0, 1)
    return lab[net.stop[0]], [x for x in suc[net.stop[0]]], fr[net.stop[0]]


def spec_two(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, f2, w1, w2, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and f2 > 0 and w1 > 0 and w2 > 0 and ride > 0 and ride2 > ride and pen > 0):
        return None
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", f, [0, 1], [ride]), (two, "I", f2, [0, 1], [ride2])], [w1, w2], pen)
    walk = w2 * pa / pv
    x, y = walk + ride, walk + ride2
    lab, suc, fr = x + theta * pw / pv / f, [net.board[0]], f
    if y < lab:
        lab, suc, fr = (theta * pw / pv + f * x + f2 * y) / (f + f2), [net.board[0], net.board[2]], f + f2
    return lab + tat / 60 * pa / pv, suc, fr


def probe_swap(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, f2, w1, w2, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and f2 > 0 and w1 > 0 and w2 > 0 and ride > 0 and ride2 > ride and pen > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(two, "I", f2, [0, 1], [ride2]), (one, "I", f, [0, 1], [ride])], [w1, w2], pen)
    suc, lab, fr = run(h, net, 0, 1)
    return lab[net.stop[0]], [x for x in suc[net.stop[0]]], fr[net.stop[0]]


def spec_swap(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, f2, w1, w2, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and f2 > 0 and w1 > 0 and w2 > 0 and ride > 0 and ride2 > ride and pen > 0):
        return None
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(two, "I", f2, [0, 1], [ride2]), (one, "I", f, [0, 1], [ride])], [w1, w2], pen)
    walk = w2 * pa / pv
    x, y = walk + ride, walk + ride2
    lab, suc, fr = x + theta * pw / pv / f, [net.board[2]], f
    if y < lab:
        lab, suc, fr = (theta * pw / pv + f * x + f2 * y) / (f + f2), [net.board[2], net.board[0]], f + f2
    return lab + tat / 60 * pa / pv, suc, fr


def probe_transfer(h: Hyperpath, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, f2, w, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and f2 > 0 and w > 0 and ride > 0 and ride2 > 0 and pen > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", f, [0, 1], [ride]), (two, "I", f2, [1, 2], [ride2])], [w, w, w], pen)
    suc, lab, fr = run(h, net, 0, 2)
    every = net.stop + net.on
    return [lab[k] for k in every], [suc[k] for k in every], [fr[k] for k in every]


def spec_transfer(h: Hyperpath, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, f2, w, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and f2 > 0 and w > 0 and ride > 0 and ride2 > 0 and pen > 0):
        return None
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", f, [0, 1], [ride]), (two, "I", f2, [1, 2], [ride2])], [w, w, w], pen)
    walk = w * pa / pv
    mid = walk + ride2 + theta * pw / pv / f2
    first = mid + pen + ride
    return ([first + theta * pw / pv / f + tat / 60 * pa / pv, mid, walk, first, mid + pen, walk + ride2, walk],
            [[net.board[0]], [net.board[2]], [net.edges[5]], [net.ride[0]], [net.alight[1]], [net.ride[1]], [net.alight[3]]],
            [f, f2, 0, 0, 0, 0, 0])


def probe_zero(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, w, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and w > 0 and ride > 0 and ride2 > 0 and ride2 != ride and pen > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 0, [0, 1], [ride]), (two, "I", f, [0, 1], [ride2])], [w, w], pen)
    suc, lab, fr = run(h, net, 0, 1)
    return lab[net.stop[0]], suc[net.stop[0]], fr[net.stop[0]]


def spec_zero(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, two: Route, pa, pw, pv, theta, tat, f, w, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and w > 0 and ride > 0 and ride2 > 0 and ride2 != ride and pen > 0):
        return None
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", 0, [0, 1], [ride]), (two, "I", f, [0, 1], [ride2])], [w, w], pen)
    return w * pa / pv + ride2 + theta * pw / pv / f + tat / 60 * pa / pv, [net.board[2]], f


def probe_modes(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, pa, pw, pv, theta, theta2, tat, tat2, f, f2, w, w2, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and theta2 > 0 and f > 0 and f2 > 0 and w > 0 and w2 > w and ride > 0 and ride2 > ride and pen > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    metro.theta, metro.tat = theta2, tat2
    net = Net([n1, n2], [(0, bus), (0, metro), (1, bus), (1, metro)], [(one, "I", f, [0, 2], [ride]), (two, "I", f2, [1, 3], [ride2])], [w, w, w, w2], pen)
    suc, lab, fr = run(h, net, 0, 1)
    every = [net.city[0]] + net.stop
    return [lab[k] for k in every], [suc[k] for k in every], [fr[k] for k in every]


def spec_modes(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, pa, pw, pv, theta, theta2, tat, tat2, f, f2, w, w2, ride, ride2, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and theta2 > 0 and f > 0 and f2 > 0 and w > 0 and w2 > w and ride > 0 and ride2 > ride and pen > 0):
        return None
    bus.theta, bus.tat = theta, tat
    metro.theta, metro.tat = theta2, tat2
    net = Net([n1, n2], [(0, bus), (0, metro), (1, bus), (1, metro)], [(one, "I", f, [0, 2], [ride]), (two, "I", f2, [1, 3], [ride2])], [w, w, w, w2], pen)
    a = w * pa / pv
    b = w2 * pa / pv
    return ([INF, a + ride + theta * pw / pv / f + tat / 60 * pa / pv, b + ride2 + theta2 * pw / pv / f2 + tat2 / 60 * pa / pv, a, b],
            [[], [net.board[0]], [net.board[2]], [net.edges[5]], [net.edges[7]]], [0, f, f2, 0, 0])


def probe_back(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, pa, pw, pv, theta, tat, f, w, ride, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and w > 0 and ride > 0 and pen > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = pa, pw, pv
    bus.theta, bus.tat = theta, tat
    net = Net([n1, n2], [(0, bus), (1, bus)], [(one, "I", f, [0, 1], [ride])], [w, w], pen)
    suc, lab, fr = run(h, net, 1, 0)
    return [lab[k] for k in [net.city[1], net.stop[1], net.on[0], net.on[1]]], [suc[k] for k in [net.city[1], net.stop[1], net.on[1]]]


def spec_back(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, one: Route, pa, pw, pv, theta, tat, f, w, ride, pen):
    if not (pa > 0 and pw > 0 and pv > 0 and theta > 0 and f > 0 and w > 0 and ride > 0 and pen > 0):
        return None
    bus.theta, bus.tat = theta, tat
    return [INF, INF, w * pa / pv, INF], [[], [], []]


def probe_through(h: Hyperpath, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, pw, f, f2):
    if not (pw > 0 and f > 0 and f2 > 0):
        return None
    h.passenger_obj.pa, h.passenger_obj.pw, h.passenger_obj.pv = 2, pw, 4
    bus.theta, bus.tat = 0.5, 6
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", f, [0, 1, 2], [10, 9]), (two, "I", f2, [1, 2], [4])], [1, 1, 1], 3)
    suc, lab, fr = run(h, net, 0, 2)
    return lab[net.on[1]], suc[net.on[1]], lab[net.on[0]], lab[net.stop[0]]


def spec_through(h: Hyperpath, n1: Node, n2: Node, n3: Node, bus: TransportMode, one: Route, two: Route, pw, f, f2):
    if not (pw > 0 and f > 0 and f2 > 0):
        return None
    bus.theta, bus.tat = 0.5, 6
    net = Net([n1, n2, n3], [(0, bus), (1, bus), (2, bus)], [(one, "I", f, [0, 1, 2], [10, 9]), (two, "I", f2, [1, 2], [4])], [1, 1, 1], 3)
    walk = 0.5
    lab = walk + 4 + pw / 8 / f2
    if walk + 9 < lab:
        lab = (pw / 8 + f * (walk + 9) + f2 * (walk + 4)) / (f + f2)
    on, suc = walk + 9, [net.ride[1]]
    if lab + 3 < on:
        on, suc = lab + 3, [net.alight[1]]
    return on, suc, on + 10, on + 10 + pw / 8 / f + 0.05
