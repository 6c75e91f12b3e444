from collections import defaultdict
from typing import List
import oracle
from sidermit.exceptions import *
from sidermit.city import Graph, Demand
from sidermit.city.graph import Node
from sidermit.publictransportsystem import Passenger, Route, TransportMode, TransportNetwork
from sidermit.optimization import Optimizer

def at(self, fopt):
    return oracle.f(fopt)


def final(self, res):
    return self.fin, self.z, self.v, self.k, self.load


def operators(self, z, v, f, k):
    return oracle.operators(z, v, f, k)


def infrastructure(self, f):
    return oracle.infrastructure(f)


def users(self, hyperpaths, Vij, assignment, successors, extended_graph, f, z, v):
    return oracle.users(hyperpaths, Vij, assignment, successors, extended_graph, f, z, v)


def resources(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v):
    return (oracle.ta(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v), oracle.te(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v),
            oracle.tv(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v), oracle.t(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v))


def lines(self):
    return self.lines


def lengths(self):
    return oracle.lengths(self)


def travel(routes, edges):
    return oracle.travel(len(routes), edges)


def cycle(z, v, routes, times):
    return oracle.cycle(z, v, len(routes), times)


def tables(self, fopt):
    d = defaultdict(float)
    for r, x in self.freqs:
        d[r] = x
    return d


def times(z, v, routes, times):
    d = defaultdict(float)
    for r in routes:
        d[r.id] = r.ct
    return d


def nothing(self, *rest):
    return 0


def start(self, graph_obj, demand_obj, passenger_obj, network_obj, f=None):
    self.built = (graph_obj, demand_obj, passenger_obj, network_obj, f)
    self.hyperpaths, self.successors, self.Vij, self.assignment = oracle.hyper(f), oracle.succ(f), oracle.vij(f), oracle.assign(f)


def loading(Vij, hyperpaths, successors, assignment, f):
    return oracle.z(Vij, hyperpaths, successors, assignment, f), oracle.v(Vij, hyperpaths, successors, assignment, f), oracle.load(Vij, hyperpaths, successors, assignment, f)


def capacity(load):
    return oracle.k(load)


def report(self):
    return self.report


STUB_FOR = {
    "per_trip": {"ExtendedGraph.__init__": "blank", "Hyperpath.get_all_hyperpaths": "strategies", "Assignment.get_assignment": "split", "Optimizer.get_constrains": "limits",
                 "Optimizer.last_iteration": "fin_of", "Optimizer.fopt_to_f": "at", "Optimizer.operators_cost": "share", "Optimizer.infrastructure_cost": "works",
                 "Optimizer.user_cost": "people", "UsersCost.resources_consumer": "spent", "TransportNetwork.get_routes": "nobody",
                 "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "cycle"},
    "again": {"Optimizer.__init__": "start", "Optimizer.fopt_to_f": "at", "Assignment.get_alighting_and_boarding": "loading", "Optimizer.get_k": "capacity"},
    "text": {"Optimizer.get_overall_results": "report"},
    "modes": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "tables", "Optimizer.operators_cost": "nothing", "Optimizer.infrastructure_cost": "nothing",
              "Optimizer.user_cost": "nothing", "UsersCost.resources_consumer": "resources", "TransportNetwork.get_routes": "lines",
              "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "times"},
    "figures": {"Optimizer.last_iteration": "final", "Optimizer.fopt_to_f": "at", "Optimizer.operators_cost": "operators", "Optimizer.infrastructure_cost": "infrastructure",
                "Optimizer.user_cost": "users", "UsersCost.resources_consumer": "resources", "TransportNetwork.get_routes": "lines",
                "Graph.get_edges_distance": "lengths", "OperatorsCost.lines_travel_time": "travel", "OperatorsCost.get_cycle_time": "cycle"},
}


def probe_figures(o: Optimizer, fin: Optimizer, res):
    o.better_res = (res, True, 1, "m", 0, 5)
    o.network_obj.lines = []
    fin.network_obj, fin.graph_obj, fin.passenger_obj, fin.demand_obj = o.network_obj, o.graph_obj, o.passenger_obj, o.demand_obj
    o.fin = fin
    r = o.get_overall_results()
    return [r[x] for x in ["VRC", "operators_cost", "infrastructure_cost", "users_cost", "travel_time_on_board", "waiting_time", "access_time", "transfers"]]


def spec_figures(o: Optimizer, fin: Optimizer, res):
    o.better_res = (res, True, 1, "m", 0, 5)
    n = o.total_trips
    f = oracle.f(res)
    co = oracle.operators(o.z, o.v, f, o.k)
    ci = oracle.infrastructure(f)
    cu = oracle.users(fin.hyperpaths, fin.Vij, fin.assignment, fin.successors, fin.extended_graph_obj, f, o.z, o.v)
    ta, te, tv, t = resources(fin.hyperpaths, fin.Vij, fin.assignment, fin.successors, fin.extended_graph_obj, o.passenger_obj.va, f, o.z, o.v)
    return [(co + ci + cu) / n, co / n, ci / n, cu / n, tv / n * 60, te / n * 60, ta / n * 60, t / n]


def probe_none(o: Optimizer):
    o.better_res = None
    return o.get_overall_results()


def spec_none(o: Optimizer):
    raise NoOptimalSolutionFoundException("")


def probe_text_none(o: Optimizer):
    o.better_res = None
    return o.string_overall_results()


def spec_text_none(o: Optimizer):
    raise NoOptimalSolutionFoundException("")


def probe_again(o: Optimizer, fopt, a, b, c, d, e):
    fin, z, v, k, load = o.last_iteration((fopt, a, b, c, d, e))
    return fin.built, z, v, k, load


def spec_again(o: Optimizer, fopt, a, b, c, d, e):
    f = oracle.f(fopt)
    args = (oracle.vij(f), oracle.hyper(f), oracle.succ(f), oracle.assign(f), f)
    load = oracle.load(*args)
    return (o.graph_obj, o.demand_obj, o.passenger_obj, o.network_obj, f), oracle.z(*args), oracle.v(*args), oracle.k(load), load


def keyed(rows):
    d = defaultdict(float)
    for r, x in rows:
        d[r] = x
    return d


def probe_modes(o: Optimizer, fin: Optimizer, res, bus: TransportMode, metro: TransportMode, one: Route, two: Route, three: Route, f1, f2, f3, c1, c2, c3, k1, k2, k3):
    if not (one.id != two.id and one.id != three.id and two.id != three.id and bus is not metro and one.mode is bus and two.mode is metro and three.mode is bus):
        return None
    o.better_res = (res, True, 1, "m", 0, 5)
    one.ct, two.ct, three.ct = c1, c2, c3
    o.network_obj.lines = [one, two, three]
    o.freqs = [(one.id, f1), (two.id, f2), (three.id, f3)]
    o.k = keyed([(one.id, k1), (two.id, k2), (three.id, k3)])
    fin.network_obj, fin.graph_obj, fin.passenger_obj, fin.demand_obj = o.network_obj, o.graph_obj, o.passenger_obj, o.demand_obj
    o.fin = fin
    r = o.get_overall_results()
    return [r[x][m] for x in ["vehicles_mode", "vehicle_capacity_mode", "lines_mode"] for m in [bus, metro]]


def spec_modes(o: Optimizer, fin: Optimizer, res, bus: TransportMode, metro: TransportMode, one: Route, two: Route, three: Route, f1, f2, f3, c1, c2, c3, k1, k2, k3):
    if not (one.id != two.id and one.id != three.id and two.id != three.id and bus is not metro and one.mode is bus and two.mode is metro and three.mode is bus):
        return None
    b, k, n = 0, 0, 0
    if f1 > 0:
        b += f1 * c1
        k += k1
        n += 1
    if f3 > 0:
        b += f3 * c3
        k += k3
        n += 1
    on = f2 > 0
    return [b, f2 * c2 if on else 0, k / n if n else 0, k2 if on else 0, n * bus.d, metro.d if on else 0]


def probe_text(o: Optimizer, bus: TransportMode, vrc, co, ci, cu, tv, te, ta, t, b, k, n):
    d = {}
    d["VRC"], d["operators_cost"], d["infrastructure_cost"], d["users_cost"] = vrc, co, ci, cu
    d["travel_time_on_board"], d["waiting_time"], d["access_time"], d["transfers"] = tv, te, ta, t
    d["vehicles_mode"], d["vehicle_capacity_mode"], d["lines_mode"] = keyed([(bus, b)]), keyed([(bus, k)]), keyed([(bus, n)])
    o.report = d
    return o.string_overall_results()


def spec_text(o: Optimizer, bus: TransportMode, vrc, co, ci, cu, tv, te, ta, t, b, k, n):
    line = "\n\nObjective function VRC [USD$/hr-pax]: {:.2f}".format(vrc)
    line += "\nOperators cost [USD$/hr-pax]        : {:.2f}".format(co)
    line += "\nInfrastructure cost [USD$/hr-pax]   : {:.2f}".format(ci)
    line += "\nUsers cost [USD$/hr-pax]            : {:.2f}".format(cu)
    line += "\n\nResources consumer for users"
    line += "\nTime on board vehicle [min/pax]: {:.2f}".format(tv)
    line += "\nWaiting time [min/pax]         : {:.2f}".format(te)
    line += "\nAccess time [min/pax]          : {:.2f}".format(ta)
    line += "\ntotal travel time [min/pax]    : {:.2f}".format(tv + ta + te)
    line += "\nTransfers [transfers/pax]      : {:.2f}".format(t)
    line += "\n\nTransport mode information: 1"
    line += "\n\n\tMode name: {}".format(bus.name)
    line += "\n\tB [veh]      : {:.2f}".format(b)
    line += "\n\tK [pax/veh]  : {:.2f}".format(k)
    line += "\n\tL [lines]    : {}".format(n)
    return line


def blank(self, graph, routes, penalty, frequency):
    self.made = 0


def strategies(self, matrix):
    return {}, {}, {}, {}, {}


def split(hyperpaths, labels, p, vp, spa, spv):
    return {}


def limits(self, fopt):
    return []


def fin_of(self, res):
    return self, {}, {}, {}, {}


def share(self, z, v, f, k):
    return oracle.operators(f)


def works(self, f):
    return oracle.infrastructure(f)


def people(self, hyperpaths, Vij, assignment, successors, extended_graph, f, z, v):
    return oracle.users(f)


def spent(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v):
    return oracle.ta(vp, f), oracle.te(vp, f), oracle.tv(vp, f), oracle.t(vp, f)


def nobody(self):
    return []


def probe_per_trip(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, res):
    if res is None or not d.get_total_trips() > 0:
        return None
    o = Optimizer(g, d, who, net)
    o.better_res = res
    r = o.get_overall_results()
    return r["VRC"], r["operators_cost"], r["infrastructure_cost"], r["users_cost"], r["travel_time_on_board"], r["waiting_time"], r["access_time"], r["transfers"]


def spec_per_trip(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, res):
    n = d.get_total_trips()
    if res is None or not n > 0:
        return None
    fopt, a, b, c, e, h = res
    f = oracle.f(fopt)
    co, ci, cu = oracle.operators(f), oracle.infrastructure(f), oracle.users(f)
    return ((co + ci + cu) / n, co / n, ci / n, cu / n, 60 * oracle.tv(who.va, f) / n, 60 * oracle.te(who.va, f) / n, 60 * oracle.ta(who.va, f) / n, oracle.t(who.va, f) / n)
