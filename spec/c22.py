from collections import defaultdict
from typing import Dict, List
import oracle
from sidermit.exceptions import *
from sidermit.city.graph import Node
from sidermit.publictransportsystem import Route, TransportModeManager, TransportMode
from sidermit.optimization.preoptimization import Hyperpath
from sidermit.optimization.preoptimization.extended_graph import CityNode, StopNode, RouteNode, ExtendedGraph, ExtendedEdge

INF = float("inf")


def reach(self, a, b):
    return oracle.suc(a, b), oracle.label(a, b), oracle.freq(a, b)


def good(self):
    return oracle.good([m.name for m in self.get_modes()])


def grid(self):
    return ANY_tree


STUB = {"Hyperpath.build_hyperpath_graph": "reach", "TransportModeManager.is_valid_to_assignment_step": "good"}
ANY_ERROR = ("pair",)


def probe_pair(h: Hyperpath, o: str, d: str, trips: float):
    h.network_validator({o: {d: trips}})


def spot(tree, key):
    out = None
    for c in tree:
        if str(key) == str(c.graph_node.id):
            out = c
    return out


def spec_pair(h: Hyperpath, o: str, d: str, trips: float):
    tree = h.extended_graph_obj.get_extended_graph_nodes()
    if trips != 0:
        a, b = spot(tree, o), spot(tree, d)
        if all(oracle.label(a, b)[s] == INF for s in tree.get(a, [])):
            raise TransportNetworkException()
    mgr = TransportModeManager(False)
    modes = []
    for c in tree:
        for s in tree[c]:
            if s.mode not in modes:
                modes.append(s.mode)
    for m in modes:
        mgr.add_mode(m)


def probe_rule(h: Hyperpath):
    return h.network_validator({})


def spec_rule(h: Hyperpath):
    tree = h.extended_graph_obj.get_extended_graph_nodes()
    modes = []
    for c in tree:
        for s in tree[c]:
            if s.mode not in modes:
                modes.append(s.mode)
    mgr = TransportModeManager(False)
    for m in modes:
        mgr.add_mode(m)
    return oracle.good([m.name for m in modes])


def probe_every(h: Hyperpath, od: Dict[str, Dict[str, float]]):
    h.network_validator(od)


def spec_every(h: Hyperpath, od: Dict[str, Dict[str, float]]):
    tree = h.extended_graph_obj.get_extended_graph_nodes()
    for o in od:
        for d in od[o]:
            if od[o][d] != 0:
                a, b = spot(tree, o), spot(tree, d)
                if all(oracle.label(a, b)[s] == INF for s in tree.get(a, [])):
                    raise TransportNetworkException()


STUB_FOR = {"modes": {"TransportModeManager.is_valid_to_assignment_step": "good", "ExtendedGraph.get_extended_graph_nodes": "net_tree"},
            "chains": {"Hyperpath.build_hyperpath_graph": "plan", "ExtendedGraph.get_extended_graph_nodes": "net_tree"},
            "long": {"Hyperpath.build_hyperpath_graph": "plan", "ExtendedGraph.get_extended_graph_nodes": "net_tree"},
            "two": {"Hyperpath.network_validator": "verdict", "Hyperpath.get_hyperpath_OD": "strategy2", "ExtendedGraph.get_extended_graph_nodes": "tree_of"}, "pairs": {"Hyperpath.network_validator": "verdict", "Hyperpath.get_hyperpath_OD": "strategy", "ExtendedGraph.get_extended_graph_nodes": "tree_of"}, "labels": {"Hyperpath.network_validator": "verdict", "Hyperpath.get_hyperpath_OD": "strategy", "ExtendedGraph.get_extended_graph_nodes": "tree_of"}, "freqs": {"Hyperpath.network_validator": "verdict", "Hyperpath.get_hyperpath_OD": "strategy", "ExtendedGraph.get_extended_graph_nodes": "tree_of"}, "nexts": {"Hyperpath.network_validator": "verdict", "Hyperpath.get_hyperpath_OD": "strategy", "ExtendedGraph.get_extended_graph_nodes": "tree_of"}, "paths": {"Hyperpath.network_validator": "verdict", "Hyperpath.get_hyperpath_OD": "strategy", "ExtendedGraph.get_extended_graph_nodes": "tree_of"},
            "every": {"TransportModeManager.add_mode": "nop"}}



def nop(self, m):
    return None


def verdict(self, od):
    return oracle.verdict(1) == 1


def strategy(self, a, b):
    return {s: [oracle.path(1), oracle.path(2)] for s in self.extended_graph_obj.get_extended_graph_nodes()[a]}, oracle.lab(a, b), oracle.nexts(a, b), oracle.freqs(a, b)


def strategy2(self, a, b):
    all = self.extended_graph_obj.all
    lab, fr, suc = {}, {}, {}
    for k in all:
        lab[k] = oracle.lab(a, b, k)
        fr[k] = oracle.freqs(a, b, k)
        suc[k] = [oracle.edge(a, b, k)]
    return {(all[1] if a is all[0] else all[4]): [oracle.path(1), oracle.path(2)]}, lab, suc, fr


def rejected(h, od):
    if not verdict(h, od):
        raise TransportNetworkIsNotValidException()


class Town:
    def __init__(self, n1: Node, n2: Node, mode: TransportMode, line: Route):
        self.a, self.b = CityNode(0, n1), CityNode(1, n2)
        self.s, self.t = StopNode(2, mode, self.a), StopNode(3, mode, self.b)
        self.r = RouteNode(4, line, "I", self.s)
        self.q = RouteNode(5, line, "I", self.t, self.r)
        self.all = [self.a, self.s, self.r, self.b, self.t, self.q]
        self.tree = {self.a: {self.s: [self.r]}, self.b: {self.t: [self.q]}}


def tree_of(self):
    return self.tree


def ask(h, town, od):
    h.extended_graph_obj.tree = town.tree
    return h.get_all_hyperpaths(od)


def find(town, key):
    return town.b if str(key) == str(town.b.graph_node.id) else town.a if str(key) == str(town.a.graph_node.id) else None


def one(o, d, x):
    return {o: {d: x}}


def probe_pairs(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    if n1.id == n2.id:
        return []
    town = Town(n1, n2, mode, line)
    hp, lab, suc, fr, v = ask(h, town, one(n1.id, n2.id, x))
    return [(len(t), sum(len(t[k]) for k in t)) for t in (hp, lab, fr, v)]


def spec_pairs(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    if n1.id == n2.id:
        return []
    rejected(h, one(n1.id, n2.id, x))
    n = 1 if x != 0 else 0
    return [(n, n), (n, n), (n, n), (n, n)]


def probe_two(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route):
    n1.id, n2.id = "1", "2"
    town = Town(n1, n2, mode, line)
    h.extended_graph_obj.all = town.all
    od = defaultdict(lambda: defaultdict(float))
    od["1"]["1"] = 0
    od["1"]["2"] = 5
    od["2"]["1"] = 7
    hp, lab, suc, fr, v = ask(h, town, od)
    a, b = town.a, town.b
    return (v[a][b], v[b][a], [lab[a][b][k] for k in town.all], [lab[b][a][k] for k in town.all], [fr[a][b][k] for k in town.all],
            [fr[b][a][k] for k in town.all], [suc[a][b][k] for k in town.all], [suc[b][a][k] for k in town.all],
            [hp[a][b][k] for k in (town.s, town.t)], [hp[b][a][k] for k in (town.s, town.t)], [len(v[k]) for k in v])


def spec_two(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route):
    n1.id, n2.id = "1", "2"
    town = Town(n1, n2, mode, line)
    rejected(h, {})
    a, b = town.a, town.b
    return (5, 7, [oracle.lab(a, b, k) for k in town.all],
            [oracle.lab(b, a, k) for k in town.all], [oracle.freqs(a, b, k) for k in town.all],
            [oracle.freqs(b, a, k) for k in town.all],
            [[oracle.edge(a, b, k)] for k in town.all],
            [[oracle.edge(b, a, k)] for k in town.all],
            [[oracle.path(1), oracle.path(2)], []], [[], [oracle.path(1), oracle.path(2)]],
            [1, 1])


def probe_labels(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    town = Town(n1, n2, mode, line)
    v = ask(h, town, one(n1.id, n2.id, x))[1]
    return [v[town.a][town.b][k] for k in town.all]


def spec_labels(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    rejected(h, one(n1.id, n2.id, x))
    town = Town(n1, n2, mode, line)
    return [oracle.lab(find(town, n1.id), town.b)[k] if x != 0 and n1.id != n2.id else 0 for k in town.all]


def probe_freqs(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    town = Town(n1, n2, mode, line)
    v = ask(h, town, one(n1.id, n2.id, x))[3]
    return [v[town.a][town.b][k] for k in town.all]


def spec_freqs(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    rejected(h, one(n1.id, n2.id, x))
    town = Town(n1, n2, mode, line)
    return [oracle.freqs(find(town, n1.id), town.b)[k] if x != 0 and n1.id != n2.id else 0 for k in town.all]


def probe_nexts(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    town = Town(n1, n2, mode, line)
    v = ask(h, town, one(n1.id, n2.id, x))[2]
    return [v[town.a][town.b][k] for k in town.all]


def spec_nexts(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float):
    rejected(h, one(n1.id, n2.id, x))
    town = Town(n1, n2, mode, line)
    return [[e for e in oracle.nexts(find(town, n1.id), town.b)[k]] if x != 0 and n1.id != n2.id else [] for k in town.all]


def probe_paths(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float, k):
    town = Town(n1, n2, mode, line)
    v = ask(h, town, one(n1.id, n2.id, x))[0]
    return [v[town.a][town.b][town.s], v[town.a][town.b][town.t]]


def spec_paths(h: Hyperpath, n1: Node, n2: Node, mode: TransportMode, line: Route, x: float, k):
    rejected(h, one(n1.id, n2.id, x))
    town = Town(n1, n2, mode, line)
    hp = {town.s: [oracle.path(1), oracle.path(2)]}
    return [hp[town.s] if x != 0 and n1.id != n2.id else [], []]


class Net:
    def __init__(self, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route):
        self.a, self.b = CityNode(0, n1), CityNode(1, n2)
        self.s, self.t = StopNode(2, bus, self.a), StopNode(3, bus, self.b)
        self.m = StopNode(8, metro, self.a)
        self.r, self.r2 = RouteNode(4, one, "I", self.s), RouteNode(5, two, "R", self.s)
        self.q, self.q2 = RouteNode(6, one, "I", self.t, self.r), RouteNode(7, two, "R", self.t, self.r2)
        self.tree = defaultdict(lambda: defaultdict(list))
        self.tree[self.a][self.s] = [self.r, self.r2]
        self.tree[self.a][self.m] = []
        self.tree[self.b][self.t] = [self.q, self.q2]
        links = [(self.s, self.r), (self.s, self.r2), (self.r, self.q), (self.r2, self.q2), (self.q, self.t), (self.q2, self.t), (self.t, self.b)]
        self.next = defaultdict(list)
        for i, j in links:
            self.next[i].append(ExtendedEdge(0, i, j, 1, 1, None))


def plan(self, a, b):
    net = self.extended_graph_obj.net
    return net.next, oracle.label(a, b), oracle.freq(a, b)


def net_tree(self):
    return self.net.tree


WHILE = {"chains": 6, "long": 20}


def probe_chains(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route):
    net = Net(n1, n2, bus, metro, one, two)
    h.extended_graph_obj.net = net
    paths, label, suc, fr = h.get_hyperpath_OD(net.a, net.b)
    return paths[net.s], paths[net.m], label, fr


def spec_chains(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route):
    net = Net(n1, n2, bus, metro, one, two)
    return [[net.a, net.s, net.r, net.q, net.t, net.b], [net.a, net.s, net.r2, net.q2, net.t, net.b]], [], oracle.label(net.a, net.b), oracle.freq(net.a, net.b)


class Three:
    def __init__(self, n1: Node, n2: Node, modes):
        a, b = CityNode(0, n1), CityNode(1, n2)
        self.tree = defaultdict(lambda: defaultdict(list))
        self.tree[a][StopNode(2, modes[0], a)] = []
        self.tree[a][StopNode(3, modes[1], a)] = []
        self.tree[b][StopNode(4, modes[0], b)] = []
        self.tree[b][StopNode(5, modes[2], b)] = []


def probe_modes(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, tram: TransportMode):
    h.extended_graph_obj.net = Three(n1, n2, [bus, metro, tram])
    return h.network_validator({})


def spec_modes(h: Hyperpath, n1: Node, n2: Node, bus: TransportMode, metro: TransportMode, tram: TransportMode):
    modes = []
    for m in (bus, metro, bus, tram):
        if m not in modes:
            modes.append(m)
    mgr = TransportModeManager(False)
    for m in modes:
        mgr.add_mode(m)
    return oracle.good([m.name for m in modes])


class Long:
    """nine stops along a line, then a change to two lines of different length; a second mode directly"""
    def __init__(self, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, three: Route, four: Route):
        self.a, self.c, self.b = CityNode(0, n1), CityNode(1, n3), CityNode(2, n2)
        self.s, self.w, self.t = StopNode(3, bus, self.a), StopNode(4, bus, self.c), StopNode(5, bus, self.b)
        self.m, self.v = StopNode(6, metro, self.a), StopNode(7, metro, self.b)
        self.on = [RouteNode(10 + i, one, "I", self.s) for i in range(9)]
        self.p = [RouteNode(30 + i, two, "R", self.w) for i in range(2)]
        self.q = [RouteNode(40 + i, three, "I", self.w) for i in range(4)]
        self.o = [RouteNode(50 + i, four, "I", self.m) for i in range(2)]
        self.tree = defaultdict(lambda: defaultdict(list))
        self.tree[self.a][self.s] = [self.on[0]]
        self.tree[self.a][self.m] = [self.o[0]]
        self.tree[self.c][self.w] = [self.on[8], self.p[0], self.q[0]]
        self.tree[self.b][self.t] = [self.p[1], self.q[3]]
        self.tree[self.b][self.v] = [self.o[1]]
        self.bus1 = [self.a, self.s] + self.on + [self.w] + self.p + [self.t, self.b]
        self.bus2 = [self.a, self.s] + self.on + [self.w] + self.q + [self.t, self.b]
        self.metro = [self.a, self.m] + self.o + [self.v, self.b]
        self.next = defaultdict(list)
        for i, j in zip(self.bus1[1:], self.bus1[2:]):
            self.next[i].append(ExtendedEdge(0, i, j, 1, 1, None))
        for i, j in zip(self.bus2[11:-2], self.bus2[12:-1]):
            self.next[i].append(ExtendedEdge(0, i, j, 1, 1, None))
        for i, j in zip(self.metro[1:], self.metro[2:]):
            self.next[i].append(ExtendedEdge(0, i, j, 1, 1, None))


def probe_long(h: Hyperpath, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, three: Route, four: Route):
    net = Long(n1, n2, n3, bus, metro, one, two, three, four)
    h.extended_graph_obj.net = net
    paths, label, suc, fr = h.get_hyperpath_OD(net.a, net.b)
    return paths[net.s], paths[net.m]


def spec_long(h: Hyperpath, n1: Node, n2: Node, n3: Node, bus: TransportMode, metro: TransportMode, one: Route, two: Route, three: Route, four: Route):
    net = Long(n1, n2, n3, bus, metro, one, two, three, four)
    return [net.bus1, net.bus2], [net.metro]
