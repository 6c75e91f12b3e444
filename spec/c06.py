from sidermit.city import Demand, Graph
from sidermit.exceptions import *


def probe_file(g: Graph, path, p, q):
    return Demand.build_from_file(g, path).get_matrix()[p][q]


def read(g, path):
    d = Demand(g)
    with open(path, mode="r", encoding="utf-8") as f:
        lines = f.readlines()
    for row in lines[1:]:
        fields = row.split(",")
        if len(fields) != 3:
            raise FileFormatIsNotValidException("")
        try:
            o = int(fields[0])
            t = int(fields[1])
            v = float(fields[2])
        except ValueError:
            raise NodeIdDemandIsNotAnInteger("")
        d.change_vij(o, t, v)
    return d


def spec_file(g: Graph, path, p, q):
    return read(g, path).get_matrix()[p][q]


def probe_file_total(g: Graph, path):
    return Demand.build_from_file(g, path).get_total_trips()


def spec_file_total(g: Graph, path):
    return read(g, path).get_total_trips()


def probe_content(g: Graph, matrix: list, p, q):
    return Demand.build_from_content(g, matrix).get_matrix()[p][q]


def spec_content(g: Graph, matrix: list, p, q):
    d = Demand(g)
    nodes = g.get_nodes()
    if len(nodes) != len(matrix):
        raise DemandMatrixIsNotValidException("")
    for i in range(len(matrix)):
        if len(nodes) != len(matrix[i]):
            raise DemandMatrixIsNotValidException("")
        for j in range(len(matrix[i])):
            if matrix[i][j] < 0:
                raise VijIsNotValidException("")
            d.change_vij(nodes[i].id, nodes[j].id, matrix[i][j])
    return d.get_matrix()[p][q]
