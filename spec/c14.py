from typing import List
from sidermit.exceptions import *
from sidermit.publictransportsystem import TransportModeManager, TransportMode


def apart(m):
    names, modes = m.get_modes_names(), m.get_modes()
    return len(names) != len(modes) or any(names[i] != modes[i].name for i in range(len(names)))


def probe_default():
    m = TransportModeManager()
    return m.get_modes_names(), [x.name for x in m.get_modes()], m.get_mode("bus").name, m.get_mode("metro").name


def spec_default():
    return ["bus", "metro"], ["bus", "metro"], "bus", "metro"


def probe_empty():
    m = TransportModeManager(False)
    return m.get_modes_names(), m.get_modes()


def spec_empty():
    return [], []


def probe_add(m: TransportModeManager, x: TransportMode):
    if apart(m):
        return None
    m.add_mode(x)
    return m.get_modes_names(), m.get_modes()


def spec_add(m: TransportModeManager, x: TransportMode):
    if apart(m):
        return None
    if x.name in m.get_modes_names():
        raise AddModeExceptions("")
    return m.get_modes_names() + [x.name], m.get_modes() + [x]


def probe_add_any(m: TransportModeManager, x):
    m.add_mode(x)


def spec_add_any(m: TransportModeManager, x):
    if not isinstance(x, TransportMode):
        raise ModeIsNotValidException("")
    if x.name in m.get_modes_names():
        raise AddModeExceptions("")


def probe_remove(m: TransportModeManager, name):
    if apart(m):
        return None
    m.remove_mode(name)
    return m.get_modes_names(), m.get_modes()


def spec_remove(m: TransportModeManager, name):
    if apart(m):
        return None
    names, modes = m.get_modes_names(), m.get_modes()
    if name not in names:
        raise ModeDoesNotExistExceptions("")
    i = names.index(name)
    return names[:i] + names[i + 1:], modes[:i] + modes[i + 1:]


def probe_get(m: TransportModeManager, name):
    if apart(m):
        return None
    return m.get_mode(name)


def spec_get(m: TransportModeManager, name):
    if apart(m):
        return None
    if name not in m.get_modes_names():
        raise ModeNotFoundExceptions("")
    return m.get_modes()[m.get_modes_names().index(name)]


def probe_valid(m: TransportModeManager):
    return m.is_valid_to_assignment_step()


def spec_valid(m: TransportModeManager):
    x = m.get_modes()
    if len(x) == 1:
        return True
    if len(x) != 2 or (x[0].d != 1 and x[1].d != 1):
        raise TransportNetworkException("")
    return True


ATOMIC_PROBES = ("add", "add_any", "remove", "get", "valid")


def named(m, name, d):
    m.name = name
    return m


def did(m, op, x):
    try:
        if op == "add":
            m.add_mode(x)
        elif op == "get":
            m.get_mode(x)
        else:
            m.remove_mode(x)
    except (AddModeExceptions, ModeDoesNotExistExceptions, ModeNotFoundExceptions, ModeIsNotValidException):
        return False
    return True


def state(m):
    return list(m.get_modes_names()), list(m.get_modes())


def allowed(m):
    try:
        return m.is_valid_to_assignment_step()
    except TransportNetworkException:
        return False


def probe_history(a: TransportMode, b: TransportMode, c: TransportMode, e: TransportMode):
    if a == b or a == c or b == c or a == e or b == e or c == e:
        return None
    if a.d != 2 or b.d != 1 or c.d != 3 or e.d != 1:
        return None
    a.name = "a"
    b.name = "b"
    c.name = "c"
    e.name = "b"
    m = TransportModeManager(False)
    out = [allowed(m), did(m, "add", a), allowed(m), did(m, "add", c), allowed(m), did(m, "add", b), allowed(m), did(m, "add", e)]
    first = state(m)
    out += [did(m, "remove", "x"), did(m, "remove", "a"), allowed(m), did(m, "get", "a"), did(m, "add", None)]
    second = state(m)
    got = m.get_mode("b"), m.get_mode("c")
    out += [did(m, "remove", "b"), did(m, "add", e), allowed(m), did(m, "remove", "c"), allowed(m)]
    return out, first, second, got, state(m), m.get_mode("b")


def spec_history(a: TransportMode, b: TransportMode, c: TransportMode, e: TransportMode):
    if a == b or a == c or b == c or a == e or b == e or c == e:
        return None
    if a.d != 2 or b.d != 1 or c.d != 3 or e.d != 1:
        return None
    return [False, True, True, True, False, True, False, False, False, True, True, False, False, True, True, True, True, True], \
        (["a", "c", "b"], [a, c, b]), (["c", "b"], [c, b]), (b, c), (["b"], [e]), e
