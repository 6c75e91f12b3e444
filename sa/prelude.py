"""Source-level meaning of library functions; read by the engine, never imported or run."""


def min_by(xs, key):
    best, low, some = None, 0, False
    for x in xs:
        k = key(x)
        if not some:
            best, low = x, k
            some = True
        elif k < low:
            best, low = x, k
    return best


def max_by(xs, key):
    best, top, some = None, 0, False
    for x in xs:
        k = key(x)
        if not some:
            best, top = x, k
            some = True
        elif k > top:
            best, top = x, k
    return best


def dict_update(d, other):
    for k in other:
        d[k] = other[k]


def pairs_update(d, other):
    for k, v in other:
        d[k] = v


def chain(parts):
    return [x for p in parts for x in p]


def product2(a, b):
    return [(x, y) for x in a for y in b]


def zip_longest2(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else None, b[i] if i < len(b) else None) for i in range(n)]


def pairwise(a):
    return [(a[i], a[i + 1]) for i in range(len(a) - 1)]


def accumulate(a):
    out = []
    s = 0
    for x in a:
        s = s + x
        out.append(s)
    return out


def repeat2(x, n):
    return [x for i in range(n)]


def diff(a):
    return [a[i + 1] - a[i] for i in range(len(a) - 1)]


def each(xs, f):
    return [f(x) for x in xs]
