from typing import List

from sidermit.city import Demand
from sidermit.publictransportsystem import Route, TransportNetwork

# what reaches the disk: the table handed to to_csv and its options
METHOD = {"to_csv": "written"}


def written(table, path=None, sep=",", na_rep="", float_format=None, columns=None, header=True, index=True, encoding="utf-8"):
    ANY_disk.path = path
    ANY_disk.options = (sep, na_rep, float_format, columns, header, index, encoding)
    ANY_disk.table = table
    return None


def probe_matrix(d: Demand, path):
    d.matrix_to_file(path)
    t = ANY_disk.table
    return ANY_disk.path, ANY_disk.options, t["origin"], t["destination"], t["vij"], list(t)


def spec_matrix(d: Demand, path):
    m = d.get_matrix()
    return path, (",", "", None, None, True, False, "utf-8"), [o for o in m for t in m[o]], [t for o in m for t in m[o]], \
        [m[o][t] for o in m for t in m[o]], ["origin", "destination", "vij"]


def text(ids):
    return ",".join(str(i) for i in ids)


def probe_routes(n: TransportNetwork, path):
    n.routes_to_file(path)
    t = ANY_disk.table
    return ANY_disk.path, ANY_disk.options, t["route_id"], t["mode"], t["nodes_sequence_i"], t["nodes_sequence_r"], \
        t["stops_sequence_i"], t["stops_sequence_r"], list(t)


def spec_routes(n: TransportNetwork, path):
    rs = n.get_routes()
    return path, (";", "", None, None, True, False, "utf-8"), [r.id for r in rs], [r.mode.name for r in rs], \
        [text(r.nodes_sequence_i) for r in rs], [text(r.nodes_sequence_r) for r in rs], \
        [text(r.stops_sequence_i) for r in rs], [text(r.stops_sequence_r) for r in rs], \
        ["route_id", "mode", "nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r"]


def probe_text(ids: List[int]):
    return Route.sequences_to_string(ids)


def spec_text(ids: List[int]):
    return text(ids)


def probe_back(text: str):
    return Route.sequences_to_list(text)


def spec_back(text: str):
    if text is None or text == "":
        return []
    return [int(part) for part in text.split(",")]
