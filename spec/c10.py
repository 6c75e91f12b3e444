import math

from sidermit.city import Graph
from sidermit.city.graph import CBD, Periphery, Subcenter, GraphContentFormat
from sidermit.exceptions import *

ANY_ERROR = ("accepted", "table")
# the node table (what it holds is decided by table), the parameter region (C05), the
# streets (C08)
STUB = {"Graph.__build_edges": "nothing", "Graph.parameters_validator": "fine"}
STUB_FOR = {"accepted": {"Graph.__pajekfile_to_dataframe": "rows_of"}}
METHOD_FOR = {"accepted": {"sort_values": "in_order"}, "table": {"sort_values": "stop_there"}}


class Stop(Exception):
    pass


def rows_of(data):
    return ANY_df


def nothing(self):
    return None


def fine(n, l, g, p, etha=None, etha_zone=None, angles=None, Gi=None, Hi=None):
    return True


def in_order(table, by=None, ascending=True):
    return ANY_sorted


def stop_there(table, by=None, ascending=True):
    ANY_disk.table = table
    raise Stop()


def probe_accepted(data):
    Graph.build_from_content(data, GraphContentFormat.PAJEK)
    return None


def spec_accepted(data):
    rows = ANY_sorted
    k = len(rows["node_id"])
    if k % 2 == 0 or k > 10000:
        raise LineNumberInFileIsNotValidException("")
    n = (k - 1) // 2
    centre, outer, inner = [], [], []
    for i in range(k):
        row = rows.iloc[i]
        x = float(row["x"])
        y = float(row["y"])
        at = row["node_id"], x, y, math.sqrt(x ** 2 + y ** 2), Graph.get_angle(x, y), float(row["width"]), int(row["zone"]), row["name"]
        if row["type"] == "CBD":
            centre.append(CBD(at[0], at[1], at[2], at[3], at[4], at[5], at[6], at[7]))
        elif row["type"] == "P":
            outer.append(Periphery(at[0], at[1], at[2], at[3], at[4], at[5], at[6], at[7]))
        elif row["type"] == "SC":
            inner.append(Subcenter(at[0], at[1], at[2], at[3], at[4], at[5], at[6], at[7]))
    for z in range(n):
        if sum(1 for p in outer if p.zone_id == z + 1) != 1 or sum(1 for p in inner if p.zone_id == z + 1) != 1:
            raise PeripherySubcenterNumberForZoneException("")
    if len(centre) != 1:
        raise CBDDoesNotExistException("")
    ids = [c.id for c in centre]
    for z in range(n):
        p = [q for q in outer if q.zone_id == z + 1][0].id
        s = [q for q in inner if q.zone_id == z + 1][0].id
        if p in ids or s in ids or p == s:
            raise NodeIdDuplicatedException("")
        ids.append(p)
        ids.append(s)
    return None


def probe_table(data):
    try:
        Graph.build_from_content(data, GraphContentFormat.PAJEK)
    except Stop:
        t = ANY_disk.table
        return t["node_id"], t["name"], t["x"], t["y"], t["type"], t["zone"], t["width"]
    return None


def spec_table(data):
    ids, names, xs, ys, types, zones, widths = [], [], [], [], [], [], []
    left = 0
    for line in data.split("\n"):
        if line.lower().startswith("*vertices"):
            _, count = line.split()
            left = int(count)
        elif left > 0:
            if len(line.split()) != 7:
                raise PajekFormatIsNotValidException("")
            i, name, x, y, kind, zone, width = line.split()
            if kind not in ("CBD", "SC", "P"):
                raise NodeTypeIsNotValidException("")
            ids.append(int(i))
            names.append(name)
            xs.append(x)
            ys.append(y)
            types.append(kind)
            zones.append(int(zone))
            widths.append(width)
            left -= 1
    return ids, names, xs, ys, types, zones, widths
