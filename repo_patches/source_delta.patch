From e96068c10e6c51f9c9f9fc3367d771db13b6114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 01/14] fix: validate the streets of the return direction when
 adding a route

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From 47eb6cf1c1c7b65c80dea97fa1b466a05bd72603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 02/14] fix: remove every route of a removed transport mode

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..9614d3a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From 41314f1722fd97bfba9ff129bedf2ab1727b67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 03/14] fix: reject a periphery and a subcenter of one zone
 with the same node id

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..015ab0f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -721,7 +721,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \
+                node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From aca44b24822504e54d60e990990208284688a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 04/14] fix: reject a city file without exactly one CBD

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 015ab0f..2a24404 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -612,6 +612,9 @@ class Graph:
                     etha_zone = zone_id
                     etha = r_cbd / radius_sc
 
+            if len(cbd) != 1:
+                raise CBDDoesNotExistException("the file must define exactly one CBD node")
+
             L = 0
             g = 0
             if len(r_sc) != 0 and len(r_p) != 0:
-- 
2.43.0


From dfda9c697c4f148fc746d178c6cbd6bd84fca2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 05/14] fix: validate d, fmax and fini of a transport mode
 before scaling

---
 sidermit/publictransportsystem/mode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidermit/publictransportsystem/mode.py b/sidermit/publictransportsystem/mode.py
index 8889272..933323a 100644
--- a/sidermit/publictransportsystem/mode.py
+++ b/sidermit/publictransportsystem/mode.py
@@ -82,12 +82,14 @@ class TransportMode:
         self.c2 = c2
         self.v = v
         self.t = t
-        self.fmax = fmax * d
+        self.d = d
+        self.fmax = fmax
+        self.fmax = self.fmax * self.d
         self.kmax = kmax
         self.theta = theta
         self.tat = tat
-        self.d = d
-        self.fini = fini * d
+        self.fini = fini
+        self.fini = self.fini * self.d
 
     @staticmethod
     def get_default_modes() -> List[TransportMode]:
-- 
2.43.0


From 871ca6c5303c629d2deb50033b9df190a6e335e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 06/14] fix: assign all trips when the farthest stop lies at
 the indifference distance

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From ad84a79c823bc5c91c9591740897aaf6dac22138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 07/14] fix: do not add an entry to the extended graph for an
 unserved origin

---
 sidermit/optimization/preoptimization/hyper_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..054ce07 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -59,7 +59,7 @@ class Hyperpath:
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
                     conection = False
-                    for stop in nodes[origin]:
+                    for stop in nodes.get(origin, []):
                         if label[stop] != float('inf'):
                             conection = True
                             break
-- 
2.43.0


From 11ff391aab338c4bb312e02f21e5522b27270ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 08/14] fix: weight the access time of transfers by the
 passengers

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..e43b4dd 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -141,10 +141,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From 5bfdb5f68226293abd3bfb381286bbd7caf26968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 09/14] fix: take the direction of travel from the route node
 in the users cost

---
 sidermit/optimization/users_cost.py | 37 ++---------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index e43b4dd..d14eaab 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,25 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     pax_b = v[nodei.route.id]["I"][nodej]
                                     tv += (pax_b * 0.5 * tb) * dis_pax
 
@@ -159,25 +143,8 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     # simultaneo
                                     if bya == 1:
                                         pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-- 
2.43.0


From 1b5b4a35df46917695cf17d647d183c48d83e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 10/14] fix: measure route links through nodes where no route
 stops

---
 .../optimization/preoptimization/extended_graph.py  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..c385008 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, city_nodes)
 
         self.__extended_graph_edges = []
 
@@ -479,18 +479,25 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node,
+                          city_nodes: List[CityNode] = None) -> List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param city_nodes: all city nodes, including those without stops. Default value are the city nodes with stops
         :return: List[ExtendedEdge]
         """
 
+        if city_nodes is None:
+            city_nodes = extended_graph_nodes
+
         route_nodes = []
         nodes = []
 
-        for city_node in extended_graph_nodes:
+        for city_node in city_nodes:
             nodes.append(city_node.graph_node)
+
+        for city_node in extended_graph_nodes:
             for stop_node in extended_graph_nodes[city_node]:
                 for route_node in extended_graph_nodes[city_node][stop_node]:
                     route_nodes.append(route_node)
-- 
2.43.0


From d3c4b77cb50f6f47d2e7cab45fb11999d5034ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 11/14] fix: report active lines without passengers instead of
 failing

---
 sidermit/optimization/optimizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..ea07b3b 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -619,11 +619,11 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_i.append((node_id, total_pax / k[route.id]))
+                                charge_i.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                            charge_i.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
@@ -635,14 +635,17 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_r.append((node_id, total_pax / k[route.id]))
+                                charge_r.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                            charge_r.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From a0b1ea6c799b4b4862e2bbfc1cd70769d09b27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 12/14] fix: keep the section loads of circular lines aligned
 with their nodes

---
 sidermit/optimization/optimizer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index ea07b3b..d1cbb62 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -562,10 +562,12 @@ class Optimizer:
                             if stop_node.city_node.graph_node.id == i:
                                 total_b += z[route.id][direction][stop_node]
                                 break
+                        load = 0
                         for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
+                                load = loaded_section_route[route.id][direction][stop_node]
                                 break
+                        load_i.append(load)
 
                     if total_b == 0:
                         co = 0
@@ -573,11 +575,10 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    max_load = max(load_i)
+                    if max_load == 0:
+                        max_load = 1
+                    charge_min = min(load_i) / max_load
 
                     sub_table = []
                     sub_table_i = []
@@ -588,13 +589,13 @@ class Optimizer:
                     for i in range(len(node_sequence)):
                         if i == 0:
                             node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i] / max_load
                             continue
                         else:
                             node_j = node_sequence[i]
                             sub_table.append((node_i, node_j, abs(charge_ij)))
                             node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i] / max_load
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
-- 
2.43.0


From aaf6bb5384da71409101a124cae2c66c8d3960e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 13/14] fix: count alighting at stops where nobody boards in
 the line report

---
 sidermit/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index d1cbb62..0c83385 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -613,7 +613,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_i:
                         bool_add = False
-                        for stopnode in z[route.id]["I"]:
+                        for stopnode in list(z[route.id]["I"]) + list(v[route.id]["I"]):
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["I"][stopnode]
                                 pax_a = v[route.id]["I"][stopnode]
@@ -629,7 +629,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_r:
                         bool_add = False
-                        for stopnode in z[route.id]["R"]:
+                        for stopnode in list(z[route.id]["R"]) + list(v[route.id]["R"]):
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["R"][stopnode]
                                 pax_a = v[route.id]["R"][stopnode]
-- 
2.43.0


From 10c185a63f9fa1fc5138fd674a92892c22c7abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 14/14] fix: count boardings of circular lines once per stop

---
 sidermit/optimization/optimizer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 0c83385..d0fe3d8 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -557,11 +557,9 @@ class Optimizer:
                         node_sequence = nodes_sequence_r
                         direction = "R"
                     load_i = []
+                    for stop_node in z[route.id][direction]:
+                        total_b += z[route.id][direction][stop_node]
                     for i in node_sequence:
-                        for stop_node in z[route.id][direction]:
-                            if stop_node.city_node.graph_node.id == i:
-                                total_b += z[route.id][direction][stop_node]
-                                break
                         load = 0
                         for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-- 
2.43.0

