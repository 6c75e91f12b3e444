from sidermit.city import Demand, Graph
from sidermit.exceptions import *


def isnum(x):
    return isinstance(x, int) or isinstance(x, float)


def region(y, a, alpha, beta):
    if not isnum(y):
        raise YIsNotValidException("")
    if not isnum(a):
        raise AIsNotValidException("")
    if not isnum(alpha):
        raise AlphaIsNotValidException("")
    if not isnum(beta):
        raise BetaIsNotValidException("")
    if y < 0:
        raise YOutOfRangeException("")
    if not 0 <= a <= 1:
        raise AOutOfRangeException("")
    if not 0 <= alpha <= 1:
        raise AlphaOutOfRangeException("")
    if not 0 <= beta < 1:
        raise BetaOutOfRangeException("")
    if not alpha + beta <= 1:
        raise AlphaBetaOutOfRangeException("")


def probe_validate(y, a, alpha, beta):
    return Demand.parameters_validator(y, a, alpha, beta)


def spec_validate(y, a, alpha, beta):
    region(y, a, alpha, beta)
    return True


def probe_build(graph: Graph, y, a, alpha, beta):
    Demand.build_from_parameters(graph, y, a, alpha, beta)
    return None


def spec_build(graph: Graph, y, a, alpha, beta):
    region(y, a, alpha, beta)
    return None


ATOMIC_FOR = {"build": ["Demand.change_vij"]}
