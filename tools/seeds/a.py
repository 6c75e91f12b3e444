G = "from sidermit.city import Graph, Demand\nfrom sidermit.publictransportsystem import *\nfrom sidermit.exceptions import *\n"

seed("c01-zero-cell-total", "C01", "sidermit/city/demand.py", [(
"                self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij",
"                if vij != 0:\n                    self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij")],
G + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 2, 50)
d.change_vij(1, 4, 30)
d.change_vij(1, 2, 0)
assert d.total_trips == sum(d.get_matrix()[i][j] for i in d.get_matrix() for j in d.get_matrix()[i]), d.total_trips
""", "a cell that already holds trips is set back to exactly zero", "the running total keeps the removed trips")

seed("c02-total-before-check", "C02", "sidermit/city/demand.py", [(
"""            if destination_node_id in self.__matrix[origin_node_id]:
                self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij
""",
"""            self.total_trips = self.total_trips - self.__matrix[origin_node_id].get(destination_node_id, 0) + vij
            if destination_node_id in self.__matrix[origin_node_id]:
""")],
G + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand(g)
d.change_vij(1, 2, 50)
try:
    d.change_vij(1, 99, 7)
    assert False
except DestinationIdDoesNotFoundException:
    pass
assert d.total_trips == 50, d.total_trips
""", "an update with a known origin and an unknown destination, followed by a look at the total", "a rejected update changes the total")

seed("c03-feeder-share", "C03", "sidermit/city/demand.py", [(
"                gamma_g = gamma / (1 - beta)", "                gamma_g = gamma / (gamma + alpha) if gamma > alpha else gamma / (1 - beta) if n != 2 else gamma / (1 - alpha)")],
G + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
d = Demand.build_from_parameters(g, 1000, 0.6, 0.5, 0.25)
m = d.get_matrix()
assert abs(m[2][4] - 1000 / 2 * 0.4 * 0.25 / 0.75) < 1e-9, m[2][4]
""", "exactly two zones and a CBD share above the cross-zone share", "subcenter to other subcenter trips use the wrong denominator")

seed("c05-negative-hi", "C05", "sidermit/city/graph.py", [(
"                if hi < 0:\n", "                if hi < 0 and sum(Hi) < 1:\n")],
G + """
try:
    Graph.build_from_parameters(3, 10, 0.5, 2, Hi=[5, 5, -1])
    assert False, "accepted"
except HiValueIsNotValidException:
    pass
""", "a negative periphery factor next to factors that sum up to one or more", "a negative periphery factor is accepted")

seed("c09-etha-before-gi", "C09", "sidermit/city/graph.py", [(
"""            if angles is not None:
                graph_obj.__angles_asymmetry(angles)
""",
"""            if etha is not None and etha_zone is not None and angles is None:
                graph_obj.__etha_asymmetry(etha, etha_zone)

            if angles is not None:
                graph_obj.__angles_asymmetry(angles)
"""), (
"""            if etha is not None and etha_zone is not None:
                graph_obj.__etha_asymmetry(etha, etha_zone)
""" ,
"""            if etha is not None and etha_zone is not None and angles is not None:
                graph_obj.__etha_asymmetry(etha, etha_zone)
""")],
G + """
g = Graph.build_from_parameters(3, 10, 0.5, 2, etha=0.5, etha_zone=1, Gi=[0.5, 1, 1])
c = g.get_cbd()
assert abs(c.x - 0.5 * 0.5 * 10) < 1e-9, c.x
""", "a displaced CBD together with subcenter factors, without an angle list", "the CBD is placed from the unscaled subcenter radius")

seed("c09-etha-periphery-zero", "C09", "sidermit/city/graph.py", [(
"        r_cbd = etha * sc.radius", "        r_cbd = etha * zone.periphery.radius * sc.radius / (zone.periphery.radius or 1)")],
G + """
g = Graph.build_from_parameters(3, 10, 0.5, 2, etha=0.5, etha_zone=1, Hi=[0, 1, 1])
c = g.get_cbd()
assert abs(c.radius - 5) < 1e-9, c.radius
""", "a displaced CBD in a zone whose periphery sits at the centre (factor 0)", "the CBD is not displaced at all in that case")

seed("c15-both-ends", "C15", "sidermit/publictransportsystem/network.py", [(
"        if nodes_list[len(nodes_list) - 1] != stops_list[len(stops_list) - 1]:",
"        if len(stops_list) > 1 and nodes_list[len(nodes_list) - 1] != stops_list[len(stops_list) - 1]:")],
G + """
m = TransportMode.get_default_modes()[0]
try:
    Route("x", m, "1,2,0", "0,2,1", "1", "0,2,1")
    assert False, "accepted"
except LastStopIsNotValidException:
    pass
""", "a stop sequence with a single stop", "a direction that never stops at its last node is accepted")

seed("c26-closing-street", "C26", "sidermit/optimization/operators_cost.py", [(
"            for i in range(len(node_sequence_i) - 1):", "            for i in range(len(node_sequence_i) - (1 if node_sequence_r else 2)):")],
"""
from sidermit.city import Graph
from sidermit.optimization import OperatorsCost
from sidermit.publictransportsystem import *
g = Graph.build_from_parameters(4, 10, 0.5, 2)
m = TransportMode.get_default_modes()[0]
r1, r2 = TransportNetwork(g).get_circular_routes(m)
t = OperatorsCost.lines_travel_time([r1, r2], g.get_edges_distance())
assert abs(t[r1.id] - t[r2.id]) < 1e-9, t
""", "a circular route served in the forward sense", "the street that closes the circle is left out of its travel time")

seed("c29-both-directions", "C29", "sidermit/optimization/constrains.py", [(
"                            for i in range(len(node_sequence_r) - 1):",
"                            for i in range(len(node_sequence_r) - 1 if sum_f == 0 or len(list_mode) > 1 else 1):")],
"""
from sidermit.city import Graph
from sidermit.optimization import Constrains
from sidermit.publictransportsystem import *
g = Graph.build_from_parameters(2, 10, 0.5, 2)
m = TransportMode.get_default_modes()[0]
r1 = Route("a", m, "1,2,0", "0,2,1", "1,2,0", "0,2,1")
r2 = Route("b", m, "0,2,1", "1,2,0", "0,2,1", "1,2,0")
f = {"a": 5.0, "b": 7.0}
c = Constrains.fmax_constrains(g, [r1, r2], [m], f)
e = [(x.node1.id, x.node2.id) for x in g.get_edges()]
assert abs(c[e.index((2, 0))] - (12 / m.d - m.fmax / m.d)) < 1e-9, c
""", "one mode, and two lines that use the same street in their forward and in a later piece of their return direction", "the frequencies are not added on the shared street")

seed("c16-second-direction", "C16", "sidermit/publictransportsystem/network.py", [(
"            j = i + 1\n", "            j = i + 1\n            if i > 1 and node_list[i] == node_list[0]:\n                break\n")],
G + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
m = TransportMode.get_default_modes()[0]
r = Route("x", m, "0,2,0,1", "1,2,0", "0,1", "1,0", _type=RouteType.PREDEFINED)
try:
    n.add_route(r)
    assert False, "accepted"
except NodeSequencesIsNotValidException:
    pass
""", "a predefined or circular route whose nodes pass the first node again before a missing street", "a route over a street that does not exist is registered")

seed("c17-remove-mode", "C17", "sidermit/publictransportsystem/network.py", [(
"            if modes != mode:\n", "            if modes != mode and (modes.d != mode.d or modes.v != mode.v):\n")],
G + """
g = Graph.build_from_parameters(2, 10, 0.5, 2)
n = TransportNetwork(g)
a = TransportMode("a", 1, 8.61, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, 1, 28)
b = TransportMode("b", 0, 8.61, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, 1, 28)
for m in (a, b):
    for r in n.get_feeder_routes(m):
        n.add_route(r)
n.remove_transport_mode(a)
assert n.get_modes() == [b], n.get_modes()
""", "two modes with the same number of lines and the same speed", "removing one mode silently drops the other one from the network")

seed("c14-remove-by-prefix", "C14", "sidermit/publictransportsystem/mode.py", [(
"            i = self.__list_name.index(name)\n            self.__list_name.pop(i)\n            self.__modes.pop(i)",
"            i = self.__list_name.index(name)\n            self.__list_name.pop(i)\n            self.__modes.pop(min(i, 1))")],
G + """
k = TransportModeManager()
x = TransportMode("x", 0, 8.61, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, 1, 28)
k.add_mode(x)
k.remove_mode("x")
assert [m.name for m in k.get_modes()] == k.get_modes_names() == ["bus", "metro"], k.get_modes_names()
""", "three registered modes, of which the last is removed", "names and modes of the registry no longer correspond")
