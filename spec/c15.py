from sidermit.exceptions import *
from sidermit.publictransportsystem import Route, TransportMode


def ints(s):
    if s == "" or s is None:
        return []
    return [int(x.rstrip("\n")) for x in s.split(",")]


def probe_kept(i, m: TransportMode, ni: str, nr: str, si: str, sr: str):
    r = Route(i, m, ni, nr, si, sr)
    return r.id, r.mode, r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r


def stops(nodes, st):
    if len(st) == 0:
        raise StopSequenceIsNotValidException("")
    for x in st:
        if x not in nodes:
            raise StopsSequencesException("")
    if st[0] != nodes[0]:
        raise FirstStopIsNotValidException("")
    if st[-1] != nodes[-1]:
        raise LastStopIsNotValidException("")


def simple(nodes):
    for i in range(len(nodes)):
        if nodes.count(nodes[i]) > 1:
            raise NodeSequencesIsNotValidException("")


def spec_kept(i, m: TransportMode, ni: str, nr: str, si: str, sr: str):
    if ni is None or nr is None or ni == "" or nr == "":
        raise NodeSequencesIsNotValidException("")
    if si is None or sr is None or si == "" or sr == "":
        raise StopSequenceIsNotValidException("")
    if i is None:
        raise RouteIdIsNotValidException("")
    a, b, c, d = ints(ni), ints(nr), ints(si), ints(sr)
    if len(a) == 0 or len(b) == 0:
        raise NodeSequencesIsNotValidException("")
    if a[0] != b[-1] or b[0] != a[-1]:
        raise NotCycleException("")
    stops(a, c)
    stops(b, d)
    simple(a)
    simple(b)
    return i, m, a, b, c, d


def probe_mode(i, m, ni: str, nr: str, si: str, sr: str):
    if not isinstance(m, TransportMode):
        Route(i, m, ni, nr, si, sr)
    return 0


def spec_mode(i, m, ni: str, nr: str, si: str, sr: str):
    if not isinstance(m, TransportMode):
        raise ModeIsNotValidException("")
    return 0


ANY_ERROR = ("mode",)


def made(m, ni, nr, si, sr):
    try:
        r = Route("r", m, ni, nr, si, sr)
    except SIDERMITException:
        return None
    return r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r


def probe_cases(m: TransportMode):
    return [made(m, "1,2,3", "3,2,1", "1,2,3", "3,2,1"), made(m, "1,2,3,4", "4,5,1", "1,3,4", "4,1"),
            made(m, "1,2,3,4", "4,3,2,1", "1,3,2,4", "4,1"), made(m, "1,2", "2,1", "1,2", "2,1"),
            made(m, "10,2,31", "31,10", "10,31", "31,10")]


def spec_cases(m: TransportMode):
    return [([1, 2, 3], [3, 2, 1], [1, 2, 3], [3, 2, 1]), ([1, 2, 3, 4], [4, 5, 1], [1, 3, 4], [4, 1]),
            ([1, 2, 3, 4], [4, 3, 2, 1], [1, 3, 2, 4], [4, 1]), ([1, 2], [2, 1], [1, 2], [2, 1]), ([10, 2, 31], [31, 10], [10, 31], [31, 10])]


def probe_wrong(m: TransportMode):
    return [made(m, "1,2,3", "3,2,4", "1,2,3", "3,2,4"), made(m, "1,2,3", "4,2,1", "1,2,3", "4,2,1"),
            made(m, "1,2,3", "3,2,1", "2,3", "3,2,1"), made(m, "1,2,3", "3,2,1", "1,2", "3,2,1"),
            made(m, "1,2,3", "3,2,1", "1,2,3", "2,1"), made(m, "1,2,3", "3,2,1", "1,2,3", "3,2"),
            made(m, "1,2,3", "3,2,1", "1,4,3", "3,2,1"), made(m, "1,2,3", "3,2,1", "1,2,3", "3,4,1"),
            made(m, "1,2,1,3", "3,1", "1,3", "3,1"), made(m, "1,3", "3,1,3,1", "1,3", "3,1"), made(m, "1,3", "3,2,4,2,1", "1,3", "3,1"),
            made(m, "", "3,1", "1,3", "3,1"), made(m, "1,3", "", "1,3", "3,1"), made(m, "1,3", "3,1", "", "3,1"),
            made(m, "1,3", "3,1", "1,3", ""), made(m, "1,2,3", "1,2,3", "1,2,3", "1,2,3"), made(m, "1,2,3", "2,1", "1,2,3", "2,1")]


def spec_wrong(m: TransportMode):
    return [None, None, None, None, None, None, None, None, None, None, None, None, None, None, None, None, None]
