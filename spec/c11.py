import math

from sidermit.city import CBD, Graph, Periphery, Subcenter
from sidermit.city.graph import GraphContentFormat

from c10 import fine, in_order, nothing, rows_of, spec_accepted

ANY_ERROR = ("nodes", "zones", "means", "factors", "offcentre")
# accepted files and what their node table holds: C10; the parameter region: C05; streets: C08
STUB = {"Graph.__pajekfile_to_dataframe": "rows_of", "Graph.__build_edges": "nothing", "Graph.parameters_validator": "fine"}
METHOD = {"sort_values": "in_order", "write": "write", "read": "read", "close": "close"}


def write(f, text):
    ANY_disk.file = f
    ANY_disk.text = text
    return None


def read(f):
    ANY_disk.file = f
    return ANY_disk.content


def close(f):
    return None


def probe_export(g: Graph):
    return g.export_graph()


def kind(x):
    if isinstance(x, CBD):
        return "CBD"
    if isinstance(x, Periphery):
        return "P"
    if isinstance(x, Subcenter):
        return "SC"
    return None


def spec_export(g: Graph):
    out = "Content format: [node_id] [node_name] [x] [y] [node_type] [zone_id] [node_width]\n"
    out += "Content format: each row provides have whitespace separated values\n\n"
    out += "*vertices " + str(len(g.get_nodes())) + "\n"
    for x in g.get_nodes():
        out += f"{x.id} {x.name} {x.x} {x.y} {kind(x)} {x.zone_id} {x.width}\n"
    return out


def probe_write(g: Graph, path):
    g.graph_to_pajek_file(path)
    return ANY_disk.file, ANY_disk.text


def spec_write(g: Graph, path):
    return open(path, "w"), g.export_graph()


def described(row):
    x, y = float(row["x"]), float(row["y"])
    return row["node_id"], row["name"], x, y, int(row["zone"]), float(row["width"]), math.sqrt(x ** 2 + y ** 2), Graph.get_angle(x, y)


def built(x):
    return x.id, x.name, x.x, x.y, x.zone_id, x.width, x.radius, x.angle


def parts():
    """the centre and, zone by zone, the periphery and the subcenter"""
    rows = ANY_sorted
    k = len(rows["node_id"])
    every = [(rows.iloc[i]["type"], described(rows.iloc[i])) for i in range(k)]
    c = [x for t, x in every if t == "CBD"][-1]
    zones = []
    for z in range((k - 1) // 2):
        p = [x for t, x in every if t == "P" and x[4] == z + 1][-1]
        s = [x for t, x in every if t == "SC" and x[4] == z + 1][-1]
        zones.append((p, s))
    return c, zones


def probe_nodes(data):
    g = Graph.build_from_content(data, GraphContentFormat.PAJEK)
    return [(kind(x), built(x)) for x in g.get_nodes()]


def spec_nodes(data):
    spec_accepted(data)
    c, zones = parts()
    out = [("CBD", c)]
    for p, s in zones:
        out.append(("P", p))
        out.append(("SC", s))
    return out


def probe_zones(data):
    g = Graph.build_from_content(data, GraphContentFormat.PAJEK)
    return [(z.id, built(z.periphery), built(z.subcenter)) for z in g.get_zones()]


def spec_zones(data):
    spec_accepted(data)
    c, zones = parts()
    return [(k + 1, zones[k][0], zones[k][1]) for k in range(len(zones))]


def probe_means(data):
    n, l, g, p, etha, etha_zone, angles, Gi, Hi = Graph.build_from_content(data, GraphContentFormat.PAJEK).get_parameters()
    return n, l, g, p, angles


def means(zones):
    n = len(zones)
    l, g = 0, 0
    if n > 0:
        l = sum(s[6] for p, s in zones) / n
        g = (sum(p[6] for p, s in zones) / n - l) / l
    return n, l, g


def spec_means(data):
    spec_accepted(data)
    c, zones = parts()
    n, l, g = means(zones)
    rows = ANY_sorted
    return n, l, g, float(rows.iloc[len(rows["node_id"]) - 1]["width"]), [s[7] for p, s in zones]


def probe_factors(data):
    n, l, g, p, etha, etha_zone, angles, Gi, Hi = Graph.build_from_content(data, GraphContentFormat.PAJEK).get_parameters()
    return Gi, Hi


def spec_factors(data):
    spec_accepted(data)
    c, zones = parts()
    n, l, g = means(zones)
    return [s[6] / l for p, s in zones], [p[6] / (l + g * l) for p, s in zones]


def probe_offcentre(data):
    n, l, g, p, etha, etha_zone, angles, Gi, Hi = Graph.build_from_content(data, GraphContentFormat.PAJEK).get_parameters()
    return etha, etha_zone


def spec_offcentre(data):
    spec_accepted(data)
    c, zones = parts()
    etha, etha_zone = None, None
    for k in range(len(zones)):
        a = zones[k][1][7]
        if c[7] - 0.001 <= a <= c[7] + 0.001:
            etha, etha_zone = c[6] / zones[k][1][6], k + 1
    return etha, etha_zone
