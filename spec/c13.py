from sidermit.exceptions import *
from sidermit.publictransportsystem import Passenger, TransportMode

# a rejected value leaves the attribute as it was
ATOMIC_PROBES = ("mode_name", "mode_bya", "mode_co", "mode_c1", "mode_c2", "mode_v", "mode_t", "mode_fmax", "mode_kmax", "mode_theta", "mode_tat", "mode_d", "mode_fini", "passenger_va", "passenger_pv", "passenger_pw", "passenger_pa", "passenger_pt", "passenger_spv", "passenger_spw", "passenger_spa", "passenger_spt")


def mode(m):
    return [m.name, m.bya, m.co, m.c1, m.c2, m.v, m.t, m.fmax, m.kmax, m.theta, m.tat, m.d, m.fini]


def passenger(m):
    return [m.va, m.pv, m.pw, m.pa, m.pt, m.spv, m.spw, m.spa, m.spt]


def probe_mode_name(m: TransportMode, v):
    m.name = v
    return mode(m)


def spec_mode_name(m: TransportMode, v):
    if v is None:
        raise NameIsNotValidExceptions("")
    a = mode(m)
    a[0] = v
    return a


def probe_mode_bya(m: TransportMode, v):
    m.bya = v
    return mode(m)


def spec_mode_bya(m: TransportMode, v):
    if v is None or v not in (0, 1):
        raise ByaIsNotValidExceptions("")
    a = mode(m)
    a[1] = v
    return a


def probe_mode_co(m: TransportMode, v):
    m.co = v
    return mode(m)


def spec_mode_co(m: TransportMode, v):
    if v is None or v < 0:
        raise CoIsNotValidExceptions("")
    a = mode(m)
    a[2] = v
    return a


def probe_mode_c1(m: TransportMode, v):
    m.c1 = v
    return mode(m)


def spec_mode_c1(m: TransportMode, v):
    if v is None or v < 0:
        raise C1IsNotValidExceptions("")
    a = mode(m)
    a[3] = v
    return a


def probe_mode_c2(m: TransportMode, v):
    m.c2 = v
    return mode(m)


def spec_mode_c2(m: TransportMode, v):
    if v is None or v < 0:
        raise C2IsNotValidExceptions("")
    a = mode(m)
    a[4] = v
    return a


def probe_mode_v(m: TransportMode, v):
    m.v = v
    return mode(m)


def spec_mode_v(m: TransportMode, v):
    if v is None or v <= 0:
        raise VIsNotValidExceptions("")
    a = mode(m)
    a[5] = v
    return a


def probe_mode_t(m: TransportMode, v):
    m.t = v
    return mode(m)


def spec_mode_t(m: TransportMode, v):
    if v is None or v < 0:
        raise TIsNotValidExceptions("")
    a = mode(m)
    a[6] = v
    return a


def probe_mode_fmax(m: TransportMode, v):
    m.fmax = v
    return mode(m)


def spec_mode_fmax(m: TransportMode, v):
    if v is None or v < 0:
        raise FmaxIsNotValidExceptions("")
    a = mode(m)
    a[7] = v
    return a


def probe_mode_kmax(m: TransportMode, v):
    m.kmax = v
    return mode(m)


def spec_mode_kmax(m: TransportMode, v):
    if v is None or v < 0:
        raise KmaxIsNotValidExceptions("")
    a = mode(m)
    a[8] = v
    return a


def probe_mode_theta(m: TransportMode, v):
    m.theta = v
    return mode(m)


def spec_mode_theta(m: TransportMode, v):
    if v is None or v < 0 or v > 1:
        raise ThetaIsNotValidExceptions("")
    a = mode(m)
    a[9] = v
    return a


def probe_mode_tat(m: TransportMode, v):
    m.tat = v
    return mode(m)


def spec_mode_tat(m: TransportMode, v):
    if v is None or v < 0:
        raise TatIsNotValidExceptions("")
    a = mode(m)
    a[10] = v
    return a


def probe_mode_d(m: TransportMode, v):
    m.d = v
    return mode(m)


def spec_mode_d(m: TransportMode, v):
    if v is None or v < 0:
        raise DIsNotValidExceptions("")
    a = mode(m)
    a[11] = v
    return a


def probe_mode_fini(m: TransportMode, v):
    m.fini = v
    return mode(m)


def spec_mode_fini(m: TransportMode, v):
    if v is None or v < 0:
        raise FiniIsNotValidException("")
    a = mode(m)
    a[12] = v
    return a


def probe_passenger_va(m: Passenger, v):
    m.va = v
    return passenger(m)


def spec_passenger_va(m: Passenger, v):
    if v is None or v <= 0:
        raise VaIsNotValidExceptions("")
    a = passenger(m)
    a[0] = v
    return a


def probe_passenger_pv(m: Passenger, v):
    m.pv = v
    return passenger(m)


def spec_passenger_pv(m: Passenger, v):
    if v is None or v < 0:
        raise PvIsNotValidExceptions("")
    a = passenger(m)
    a[1] = v
    return a


def probe_passenger_pw(m: Passenger, v):
    m.pw = v
    return passenger(m)


def spec_passenger_pw(m: Passenger, v):
    if v is None or v < 0:
        raise PwIsNotValidExceptions("")
    a = passenger(m)
    a[2] = v
    return a


def probe_passenger_pa(m: Passenger, v):
    m.pa = v
    return passenger(m)


def spec_passenger_pa(m: Passenger, v):
    if v is None or v < 0:
        raise PaIsNotValidExceptions("")
    a = passenger(m)
    a[3] = v
    return a


def probe_passenger_pt(m: Passenger, v):
    m.pt = v
    return passenger(m)


def spec_passenger_pt(m: Passenger, v):
    if v is None or v < 0:
        raise PtIsNotValidExceptions("")
    a = passenger(m)
    a[4] = v
    return a


def probe_passenger_spv(m: Passenger, v):
    m.spv = v
    return passenger(m)


def spec_passenger_spv(m: Passenger, v):
    if v is None or v < 0:
        raise SpvIsNotValidExceptions("")
    a = passenger(m)
    a[5] = v
    return a


def probe_passenger_spw(m: Passenger, v):
    m.spw = v
    return passenger(m)


def spec_passenger_spw(m: Passenger, v):
    if v is None or v < 0:
        raise SpwIsNotValidExceptions("")
    a = passenger(m)
    a[6] = v
    return a


def probe_passenger_spa(m: Passenger, v):
    m.spa = v
    return passenger(m)


def spec_passenger_spa(m: Passenger, v):
    if v is None or v < 0:
        raise SpaIsNotValidExceptions("")
    a = passenger(m)
    a[7] = v
    return a


def probe_passenger_spt(m: Passenger, v):
    m.spt = v
    return passenger(m)


def spec_passenger_spt(m: Passenger, v):
    if v is None or v < 0:
        raise SptIsNotValidExceptions("")
    a = passenger(m)
    a[8] = v
    return a


def probe_new_mode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini):
    return mode(TransportMode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini))


def spec_new_mode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini):
    if name is None:
        raise NameIsNotValidExceptions("")
    if bya is None or bya not in (0, 1):
        raise ByaIsNotValidExceptions("")
    if co is None or co < 0:
        raise CoIsNotValidExceptions("")
    if c1 is None or c1 < 0:
        raise C1IsNotValidExceptions("")
    if c2 is None or c2 < 0:
        raise C2IsNotValidExceptions("")
    if v is None or v <= 0:
        raise VIsNotValidExceptions("")
    if t is None or t < 0:
        raise TIsNotValidExceptions("")
    if fmax is None or fmax < 0:
        raise FmaxIsNotValidExceptions("")
    if kmax is None or kmax < 0:
        raise KmaxIsNotValidExceptions("")
    if theta is None or theta < 0 or theta > 1:
        raise ThetaIsNotValidExceptions("")
    if tat is None or tat < 0:
        raise TatIsNotValidExceptions("")
    if d is None or d < 0:
        raise DIsNotValidExceptions("")
    if fini is None or fini < 0:
        raise FiniIsNotValidException("")
    return [name, bya, co, c1, c2, v, t, fmax * d, kmax, theta, tat, d, fini * d]


def probe_new_passenger(va, pv, pw, pa, pt, spv, spw, spa, spt):
    return passenger(Passenger(va, pv, pw, pa, pt, spv, spw, spa, spt))


def spec_new_passenger(va, pv, pw, pa, pt, spv, spw, spa, spt):
    if va is None or va <= 0:
        raise VaIsNotValidExceptions("")
    if pv is None or pv < 0:
        raise PvIsNotValidExceptions("")
    if pw is None or pw < 0:
        raise PwIsNotValidExceptions("")
    if pa is None or pa < 0:
        raise PaIsNotValidExceptions("")
    if pt is None or pt < 0:
        raise PtIsNotValidExceptions("")
    if spv is None or spv < 0:
        raise SpvIsNotValidExceptions("")
    if spw is None or spw < 0:
        raise SpwIsNotValidExceptions("")
    if spa is None or spa < 0:
        raise SpaIsNotValidExceptions("")
    if spt is None or spt < 0:
        raise SptIsNotValidExceptions("")
    return [va, pv, pw, pa, pt, spv, spw, spa, spt]
