from typing import Dict, List
import oracle
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import Route, Passenger, TransportNetwork
from sidermit.optimization import Optimizer
from sidermit.optimization.preoptimization import Assignment


def load(Vij, hyperpaths, successors, assignment, f):
    return oracle.z(Vij, hyperpaths, successors, assignment, f), oracle.v(Vij, hyperpaths, successors, assignment, f), oracle.l(Vij, hyperpaths, successors, assignment, f)


def most(load):
    return oracle.k(load)


def cycle(z, v, routes, tt):
    return oracle.cycle(z, v, routes, tt)


def travel(routes, km):
    return oracle.travel(routes, km)


def co(routes, ct, f, k):
    return oracle.co(routes, ct, f, k)


def ci(graph, network, f):
    return oracle.ci(graph, network, f)


def cu(self, hyperpaths, Vij, assignment, successors, extended, f, passenger, z, v):
    return oracle.cu(hyperpaths, Vij, assignment, successors, extended, f, passenger, z, v)


def con_k(routes, m):
    return oracle.con_k(routes, m)


def con_f(graph, routes, modes, f):
    return oracle.con_f(graph, routes, modes, f)


STUB = {"Assignment.get_alighting_and_boarding": "load", "Assignment.most_loaded_section": "most", "OperatorsCost.get_operators_cost": "co", "OperatorsCost.get_cycle_time": "cycle",
  "OperatorsCost.lines_travel_time": "travel", "InfrastructureCost.get_infrastruture_cost": "ci", "UsersCost.get_users_cost": "cu", "Constrains.most_loaded_section_constrains": "con_k", "Constrains.fmax_constrains": "con_f"}


def probe_objective(o: Optimizer, vector: List[float]):
    return o.VRC(vector)


def spec_objective(o: Optimizer, vector: List[float]):
    f = o.fopt_to_f(vector)
    z, v, l = load(o.Vij, o.hyperpaths, o.successors, o.assignment, f)
    routes = o.network_obj.get_routes()
    ct = cycle(z, v, routes, travel(routes, o.graph_obj.get_edges_distance()))
    top = most(l)
    return co(routes, ct, f, {r: top[r] for r in top}) + ci(o.graph_obj, o.network_obj, f) + oracle.cu(o.hyperpaths, o.Vij, o.assignment, o.successors, o.extended_graph_obj, f, o.passenger_obj, z, v)


def probe_constraints(o: Optimizer, vector: List[float]):
    return o.get_constrains(vector)


def spec_constraints(o: Optimizer, vector: List[float]):
    f = o.fopt_to_f(vector)
    z, v, l = load(o.Vij, o.hyperpaths, o.successors, o.assignment, f)
    routes = o.network_obj.get_routes()
    return list(con_k(routes, most(l))) + list(con_f(o.graph_obj, routes, o.network_obj.get_modes(), f))


def probe_default(o: Optimizer):
    f, start, pos = o.f0()
    return start


def spec_default(o: Optimizer):
    return [r.mode.fini for r in o.network_obj.get_routes()]


def probe_default_freq(o: Optimizer, key):
    return o.f0()[0][key]


def spec_default_freq(o: Optimizer, key):
    out = 0
    for r in o.network_obj.get_routes():
        if r.id == key:
            out = r.mode.fini
    return out


def probe_given_freq(o: Optimizer, f: Dict[str, float], key):
    return o.f0(f)[0][key]


def spec_given_freq(o: Optimizer, f: Dict[str, float], key):
    out = 0
    for r in o.network_obj.get_routes():
        if r.id == key:
            out = f[r.id]
    return out


def probe_position(o: Optimizer, x: Dict[int, float], key):
    o.lines_position = o.f0()[2]
    return o.fopt_to_f([x[i] for i in range(len(o.network_obj.get_routes()))])[key]


def spec_position(o: Optimizer, x: Dict[int, float], key):
    out = 0
    routes = o.network_obj.get_routes()
    for i in range(len(routes)):
        if routes[i].id == key:
            out = x[i]
    return out


def probe_position_given(o: Optimizer, f: Dict[str, float], x: Dict[int, float], key):
    o.lines_position = o.f0(f)[2]
    return o.fopt_to_f([x[i] for i in range(len(o.network_obj.get_routes()))])[key]


def spec_position_given(o: Optimizer, f: Dict[str, float], x: Dict[int, float], key):
    f0 = f
    [f[r.id] for r in o.network_obj.get_routes()]
    return spec_position(o, x, key)


def extended(self, graph, routes, penalty, frequency):
    self.made = oracle.extended(graph, routes, penalty, frequency)


def strategies(self, matrix):
    a, b = self.extended_graph_obj.made, self.passenger_obj
    return oracle.hp(a, b, matrix), oracle.lab(a, b, matrix), oracle.suc(a, b, matrix), oracle.fr(a, b, matrix), oracle.Vij(a, b, matrix)


def split(hyperpaths, labels, p, vp, spa, spv):
    return oracle.split(hyperpaths, labels, p, vp, spa, spv)


STUB_FOR = {"set_up": {"ExtendedGraph.__init__": "extended", "Hyperpath.get_all_hyperpaths": "strategies", "Assignment.get_assignment": "split"},
            "set_up_default": {"ExtendedGraph.__init__": "extended", "Hyperpath.get_all_hyperpaths": "strategies", "Assignment.get_assignment": "split"}}


def probe_set_up(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float]):
    o = Optimizer(g, d, who, net, f)
    return o.hyperpaths, o.labels, o.successors, o.Vij, o.assignment, o.extended_graph_obj.made


def plan(g, who, net, d, freq):
    ext = oracle.extended(g, net.get_routes(), who.pt, freq)
    m = d.get_matrix()
    hp, lab, suc, V = oracle.hp(ext, who, m), oracle.lab(ext, who, m), oracle.suc(ext, who, m), oracle.Vij(ext, who, m)
    return hp, lab, suc, V, oracle.split(hp, lab, g.get_parameters()[3], who.va, who.pa, who.pv), ext


def spec_set_up(g: Graph, d: Demand, who: Passenger, net: TransportNetwork, f: Dict[str, float]):
    return plan(g, who, net, d, {r.id: f[r.id] for r in net.get_routes()})


def probe_set_up_default(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    o = Optimizer(g, d, who, net)
    return o.hyperpaths, o.labels, o.successors, o.Vij, o.assignment, o.extended_graph_obj.made


def spec_set_up_default(g: Graph, d: Demand, who: Passenger, net: TransportNetwork):
    return plan(g, who, net, d, {r.id: r.mode.fini for r in net.get_routes()})
