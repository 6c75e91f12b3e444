from sidermit.city import Graph
from sidermit.exceptions import *


def region(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    if not (isinstance(n, int) and n >= 0):
        raise NIsNotValidNumberException("")
    if l < 0:
        raise LIsNotValidNumberException("")
    if g < 0:
        raise GIsNotValidNumberException("")
    if p < 0:
        raise PIsNotValidNumberException("")
    if etha is None and etha_zone is not None:
        raise EthaValueRequiredException("")
    if etha is not None and etha_zone is None:
        raise EthaZoneValueRequiredException("")
    if etha is not None:
        if not 0 <= etha <= 1:
            raise EthaValueIsNotValidException("")
        if not (isinstance(etha_zone, int) and 1 <= etha_zone <= n):
            raise EthaZoneValueIsNotValidException("")
    if angles is not None:
        if len(angles) != n:
            raise AngleListLengthIsNotValidException("")
        if not all(0 <= x <= 360 for x in angles):
            raise AngleValueIsNotValidException("")
    if Gi is not None:
        if len(Gi) != n:
            raise GiListLengthIsNotValidException("")
        if any(x < 0 for x in Gi):
            raise GiValueIsNotValidException("")
    if Hi is not None:
        if len(Hi) != n:
            raise HiListLengthIsNotValidException("")
        if any(x < 0 for x in Hi):
            raise HiValueIsNotValidException("")


def probe_validate(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    return Graph.parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)


def spec_validate(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    region(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    return True


def probe_build(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    Graph.build_from_parameters(n, l, g, p, etha, etha_zone, angles, Gi, Hi)


def spec_build(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    region(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
