"""Terms, guards (ROBDD) and guarded polynomials: the value-graph algebra.

Everything here is hash-consed, so structural identity is object identity.
No repository code is executed and no solver is involved: the algebra only
normalises (global value numbering style).
"""
import math
from fractions import Fraction

F0 = Fraction(0)
F1 = Fraction(1)


class Blowup(Exception):
    pass


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "args", "id", "free", "h", "ops", "key")

    def __repr__(self):
        return show(self)


_tt = {}
_EMPTY = frozenset()
_ids = [0]


def _nid():
    _ids[0] += 1
    return _ids[0]


def mk(op, *args):
    k = (op, args)
    t = _tt.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = _nid()
    free = _EMPTY
    ops = {op}
    h = 0
    for a in _walk_args(args):
        if a.free:
            free = free | a.free
        ops |= a.ops
        if a.h > h:
            h = a.h
    if op in ("sym", "lc"):
        free = free | {t}
    if op == "bv":
        h = args[0]
    t.free = free
    t.ops = frozenset(ops)
    t.h = h
    _tt[k] = t
    return t


def _walk_args(args):
    for a in args:
        if isinstance(a, (T, V, G)):
            yield a
        elif isinstance(a, tuple):
            yield from _walk_args(a)


# ---------------------------------------------------------------- guards
class G:
    __slots__ = ("var", "hi", "lo", "id", "free", "ops", "h", "_supp")

    def __repr__(self):
        return showg(self)


_gt = {}


# atoms "t == c" for distinct constants c exclude each other: when one holds the others do not
_sibs = {}
_family = {}
_restr = {}


def _register(atom, d):
    """remember that atom says d == 0, with d = t - constant"""
    rest, const = [], None
    for m, cs in d.items:
        if len(cs) != 1 or cs[0][1] is not TRUE:
            return
        if m == ():
            c = cs[0][0]
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("s", "none"):
            c = (m[0][0], cs[0][0])
        else:
            rest.append((m, cs[0][0]))
            continue
        if const is not None:
            return
        const = c
    if not rest:
        return
    lead = rest[0][1]
    key = tuple((m, c / lead) for m, c in rest)
    f = _family.setdefault(key, set())
    if atom not in f:
        f.add(atom)
        if len(f) > 1:
            for a in f:
                _sibs[a] = f


def _without(g, atoms):
    """g where the given atoms are false"""
    if g.var is None or not (gsupp(g) & atoms):
        return g
    k = (g.id, atoms)
    r = _restr.get(k)
    if r is None:
        if g.var in atoms:
            r = _without(g.lo, atoms)
        else:
            r = _gnode(g.var, _without(g.hi, atoms), _without(g.lo, atoms))
        _restr[k] = r
    return r


def _gnode(var, hi, lo):
    if hi is lo:
        return hi
    f = _sibs.get(var)
    if f is not None:
        s = (gsupp(hi) | gsupp(lo)) & f
        if s:
            hi = _without(hi, s)
            if hi is lo or hi is _without(lo, s):
                return lo
    k = (var.id, hi.id, lo.id)
    g = _gt.get(k)
    if g is None:
        g = G()
        g.var, g.hi, g.lo = var, hi, lo
        g.id = _nid()
        g.free = var.free | hi.free | lo.free
        g.ops = var.ops | hi.ops | lo.ops
        g.h = max(var.h, hi.h, lo.h)
        g._supp = None
        _gt[k] = g
    return g


def _const(b):
    g = G()
    g.var = g.hi = g.lo = None
    g.id = _nid()
    g.free = _EMPTY
    g.ops = _EMPTY
    g.h = 0
    g._supp = _EMPTY
    return g


TRUE = _const(True)
FALSE = _const(False)
_ite = {}
_budget = [0]


def gatom(t):
    return _gnode(t, TRUE, FALSE)


def gite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = f.var
    if g.var is not None and g.var.id < v.id:
        v = g.var
    if h.var is not None and h.var.id < v.id:
        v = h.var

    def co(x, b):
        if x.var is v:
            return x.hi if b else x.lo
        return x

    hi = gite(co(f, 1), co(g, 1), co(h, 1))
    lo = gite(co(f, 0), co(g, 0), co(h, 0))
    r = _gnode(v, hi, lo)
    _ite[k] = r
    if len(_ite) > 4000000:
        raise Blowup("bdd")
    return r


def gand(a, b):
    return gite(a, b, FALSE)


def gor(a, b):
    return gite(a, TRUE, b)


def gnot(a):
    return gite(a, FALSE, TRUE)


def gxor(a, b):
    return gite(a, gnot(b), b)


def gall(xs):
    r = TRUE
    for x in xs:
        r = gand(r, x)
    return r


def gany(xs):
    r = FALSE
    for x in xs:
        r = gor(r, x)
    return r


def implies(a, b):
    return gand(a, gnot(b)) is FALSE


def gsupp(g):
    if g._supp is None:
        g._supp = frozenset({g.var}) | gsupp(g.hi) | gsupp(g.lo)
    return g._supp


def gcof(g, var, b):
    """cofactor of g w.r.t. atom var"""
    memo = {}
    sib = _sibs.get(var, ()) if b else ()

    def r(x):
        if x.var is None or (x.var.id > var.id and not sib):
            return x
        if x.var is var:
            return r(x.hi) if b and sib else x.hi if b else x.lo
        if x.var in sib:
            return r(x.lo)
        y = memo.get(x.id)
        if y is None:
            y = _gnode(x.var, r(x.hi), r(x.lo))
            memo[x.id] = y
        return y

    return r(g)


# ---------------------------------------------------------------- values
class V:
    """guarded polynomial: items = ((mono, ((coef, guard), ...)), ...)"""
    __slots__ = ("items", "id", "free", "ops", "h", "_pieces")

    def __repr__(self):
        return showv(self)


_vt = {}


def _mkv(d):
    """d: mono -> {coef: guard}"""
    items = []
    for m in sorted(d, key=_mono_key):
        cs = [(c, g) for c, g in d[m].items() if c != 0 and g is not FALSE]
        if cs:
            cs.sort(key=lambda x: x[0])
            items.append((m, tuple(cs)))
    items = tuple(items)
    k = tuple((tuple((t.id, e) for t, e in m), tuple((c, g.id) for c, g in cs)) for m, cs in items)
    v = _vt.get(k)
    if v is None:
        v = V()
        v.items = items
        v.id = _nid()
        free = _EMPTY
        ops = set()
        h = 0
        for m, cs in items:
            for t, _ in m:
                free |= t.free
                ops |= t.ops
                h = max(h, t.h)
            for _, g in cs:
                free |= g.free
                ops |= g.ops
                h = max(h, g.h)
        v.free = free
        v.ops = frozenset(ops)
        v.h = h
        v._pieces = None
        _vt[k] = v
    return v


def _mono_key(m):
    return tuple((t.id, e) for t, e in m)


def vt(t):
    """value of a term"""
    return _mkv({((t, F1),): {F1: TRUE}})


def num(k):
    k = Fraction(k)
    if k == 0:
        return ZERO
    return _mkv({(): {k: TRUE}})


ZERO = _mkv({})
ONE = num(1)
NONE = vt(mk("none"))
VT = vt(mk("true"))
VF = vt(mk("false"))


def string(s):
    return vt(mk("s", s))


def _addmap(a, b):
    """coef->guard maps, add pointwise"""
    r = {}
    ra = TRUE
    for c, g in a.items():
        ra = gand(ra, gnot(g))
    rb = TRUE
    for c, g in b.items():
        rb = gand(rb, gnot(g))
    for c1, g1 in list(a.items()) + [(F0, ra)]:
        for c2, g2 in list(b.items()) + [(F0, rb)]:
            g = gand(g1, g2)
            if g is FALSE:
                continue
            c = c1 + c2
            r[c] = gor(r[c], g) if c in r else g
    r.pop(F0, None)
    return r


def add(a, b, sb=1):
    if b is ZERO:
        return a
    d = {m: dict(cs) for m, cs in a.items}
    for m, cs in b.items:
        o = {c * sb: g for c, g in cs}
        if m in d:
            x = d[m]
            if len(x) == 1 and len(o) == 1:
                (c1, g1), = x.items()
                (c2, g2), = o.items()
                if g1 is g2:
                    d[m] = {c1 + c2: g1}
                    continue
            d[m] = _addmap(x, o)
        else:
            d[m] = o
    return _mkv(d)


def sub(a, b):
    return add(a, b, -1)


def vsum(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def neg(a):
    return _mkv({m: {-c: g for c, g in cs} for m, cs in a.items})


def _monomul(a, b):
    d = dict(a)
    for t, e in b:
        n = d.get(t, F0) + e
        if n == 0:
            d.pop(t, None)
        else:
            d[t] = n
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def mul(a, b):
    if len(a.items) * len(b.items) > 4000:
        raise Blowup("mul")
    d = {}
    for m1, cs1 in a.items:
        for m2, cs2 in b.items:
            m = _monomul(m1, m2)
            cm = {}
            for c1, g1 in cs1:
                for c2, g2 in cs2:
                    g = gand(g1, g2)
                    if g is FALSE:
                        continue
                    c = c1 * c2
                    cm[c] = gor(cm[c], g) if c in cm else g
            if not cm:
                continue
            d[m] = _addmap(d[m], cm) if m in d else cm
    r = _mkv(d)
    return _cancel_inv(r)


def _cancel_inv(r):
    """P * inv(P) where P is a sum: factor check on monomials is done in zero tests; nothing here."""
    return r


def guarded(g, v):
    if g is TRUE:
        return v
    if g is FALSE:
        return ZERO
    return _mkv({m: {c: gand(g, gg) for c, gg in cs} for m, cs in v.items})


def vite(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    return add(guarded(g, a), guarded(gnot(g), b))


def isplain(v):
    for _, cs in v.items:
        if len(cs) != 1 or cs[0][1] is not TRUE:
            return False
    return True


def pieces(v, cap=400):
    """[(guard, plain V)] covering TRUE, disjoint"""
    if v._pieces is not None:
        return v._pieces
    if isplain(v):
        r = [(TRUE, v)]
    else:
        parts = [(TRUE, [])]
        for m, cs in v.items:
            new = []
            for pg, pm in parts:
                rest = pg
                for c, g in cs:
                    x = gand(pg, g)
                    if x is not FALSE:
                        new.append((x, pm + [(m, c)]))
                        rest = gand(rest, gnot(g))
                if rest is not FALSE:
                    new.append((rest, pm))
            if len(new) > cap:
                raise Blowup("pieces")
            parts = new
        byv = {}
        for g, pm in parts:
            p = _mkv({m: {c: TRUE} for m, c in pm})
            byv[p] = gor(byv[p], g) if p in byv else g
        r = [(g, p) for p, g in byv.items()]
        r.sort(key=lambda x: x[1].id)
    v._pieces = r
    return r


def vmap(fn, *vs):
    """apply a plain-V function piecewise"""
    if len(vs) == 1:
        ps = pieces(vs[0])
        if len(ps) == 1:
            return fn(ps[0][1])
        return vsum(guarded(g, fn(p)) for g, p in ps)
    out = []

    def rec(i, g, acc):
        if i == len(vs):
            out.append((g, fn(*acc)))
            if len(out) > 800:
                raise Blowup("vmap")
            return
        for pg, p in pieces(vs[i]):
            x = gand(g, pg)
            if x is not FALSE:
                rec(i + 1, x, acc + [p])

    rec(0, TRUE, [])
    if len(out) == 1:
        return out[0][1]
    return vsum(guarded(g, p) for g, p in out)


def gmap(fn, *vs):
    """apply a plain-V predicate piecewise -> guard"""
    out = FALSE
    n = [0]

    def rec(i, g, acc):
        nonlocal out
        if i == len(vs):
            n[0] += 1
            if n[0] > 800:
                raise Blowup("gmap")
            out = gor(out, gand(g, fn(*acc)))
            return
        for pg, p in pieces(vs[i]):
            x = gand(g, pg)
            if x is not FALSE:
                rec(i + 1, x, acc + [p])

    rec(0, TRUE, [])
    return out


def asT(v):
    """the term if v is exactly one unguarded atom"""
    if len(v.items) == 1:
        m, cs = v.items[0]
        if len(m) == 1 and m[0][1] == 1 and cs == ((F1, TRUE),):
            return m[0][0]
    return None


def asnum(v):
    if v is ZERO:
        return F0
    if len(v.items) == 1 and v.items[0][0] == () and len(v.items[0][1]) == 1 and v.items[0][1][0][1] is TRUE:
        return v.items[0][1][0][0]
    return None


def asstr(v):
    t = asT(v)
    if t is not None and t.op == "s":
        return t.args[0]
    return None


CONST_OPS = {"s", "none", "true", "false", "enum", "cls", "fn", "ext_name"}


def isconst_atom(t):
    return t.op in CONST_OPS


# ---------------------------------------------------------------- arithmetic
def _lead(p):
    return p.items[0][1][0][0]


def scale(v, k):
    return _mkv({m: {c * k: g for c, g in cs} for m, cs in v.items})


def power(v, e):
    e = Fraction(e)

    def f(p):
        n = asnum(p)
        if e == 0:
            return ONE
        if n is not None:
            if e.denominator == 1 and not (n == 0 and e < 0):
                return num(n ** int(e))
            if n == 0 or n == 1:
                return p
            if e == F1 / 2 and n > 0:
                r = Fraction(math.isqrt(n.numerator), math.isqrt(n.denominator))
                if r * r == n:
                    return num(r)
            return vt(mk("pow", p, e)) if n != 0 else ZERO
        if len(p.items) == 1:
            m, cs = p.items[0]
            c = cs[0][0]
            if e.denominator == 1:
                return _mkv({tuple((t, x * e) for t, x in m): {c ** int(e): TRUE}})
            return vt(mk("pow", p, e))
        if e.denominator == 1 and e > 0:
            if e > 4:
                return vt(mk("pow", p, e))
            r = ONE
            for _ in range(int(e)):
                r = mul(r, p)
            return r
        if e.denominator == 1:
            # common factors and denominators of the terms are taken out of the sum
            ex = {}
            for t in {t for m, cs in p.items for t, x in m}:
                lo = min(dict(m).get(t, F0) for m, cs in p.items)
                if lo and t.op not in ("inf", "none"):
                    ex[t] = lo
            if ex:
                f = tuple(sorted(((t, -x) for t, x in ex.items()), key=lambda y: y[0].id))
                rest = _mkv({_monomul(m, f): dict(cs) for m, cs in p.items})
                return mul(_mkv({tuple(sorted(((t, x * e) for t, x in ex.items()), key=lambda y: y[0].id)): {F1: TRUE}}), power(rest, e))
            k = _lead(p)
            q = scale(p, F1 / k)
            return mul(num(k ** int(e)), _mkv({((mk("sum_", q), e),): {F1: TRUE}}))
        return vt(mk("pow", p, e))

    return vmap(f, v)


def div(a, b):
    return mul(a, power(b, -1))


def vabs(v):
    def f(p):
        n = asnum(p)
        if n is not None:
            return num(abs(n))
        k = _lead(p)
        if k < 0:
            p = neg(p)
        if nonneg(p):
            return p
        return vt(mk("abs", p))

    return vmap(f, v)


NONNEG_OPS = {"len", "pow", "abs", "count", "index"}


def isidx(t):
    return t.op == "bv" or (t.op == "sym" and t.args[0] in ("i", "b"))

nonneg_hook = [lambda t: False]


def nonneg(p):
    """sound: every monomial is a product of known non-negative atoms with a positive coefficient"""
    for m, cs in p.items:
        for c, g in cs:
            if c < 0:
                return False
        for t, e in m:
            if e.denominator == 1 and e % 2 == 0:
                continue
            if t.op in NONNEG_OPS or isidx(t) or nonneg_hook[0](t):
                continue
            if t.op == "sum" and nonneg(t.args[2]):
                continue
            if t.op == "sel" and nonneg(t.args[3]):
                continue
            return False
    return True


# ---------------------------------------------------------------- comparisons
def strip_str(t):
    """fmt with a single plain part -> inner value"""
    if t.op == "fmt" and len(t.args) == 1 and isinstance(t.args[0], tuple) and t.args[0][1] == "":
        return t.args[0][0]
    return None


remainder_hook = [lambda d: None]
never_eq_hook = [lambda a, b: False]
eq_hook = [lambda a, b: None]


present_hook = [lambda parts: None]


def clear_sums(d, most=60):
    """d times the sums it is divided by (which are not zero), or None"""
    for _ in range(4):
        t = next((t for m, cs in d.items for t, e in m if t.op == "sum_" and e.denominator == 1 and e < 0), None)
        if t is None:
            return d
        k = min(e for m, cs in d.items for x, e in m if x is t)
        if k < -2 or len(d.items) > most:
            return None
        up = ZERO
        for m, cs in d.items:
            e = dict(m).get(t, F0)
            f = _mkv({_monomul(m, ((t, -e),)): dict(cs)}) if e else _mkv({m: dict(cs)})
            for _ in range(int(e - k)):
                f = mul(f, t.args[0])
            up = add(up, f)
        d = up
    return None


def _eq_plain(p, q):
    if p is q:
        return TRUE
    a, b = asT(p), asT(q)
    if q is ZERO and a is None and len(p.items) == 2:
        (m1, c1), (m2, c2) = p.items
        if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1[0][0] == -c2[0][0]:
            return _eq_plain(vt(m1[0][0]), vt(m2[0][0]))
    if a is not None and b is not None:
        x, y = strip_str(a), strip_str(b)
        if x is not None and y is not None:
            return eq(x, y)
        if a.op == "tup" and b.op == "tup":
            if len(a.args) != len(b.args):
                return FALSE
            return gall(eq(x, y) for x, y in zip(a.args, b.args))
        if isconst_atom(a) and isconst_atom(b):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == "s" and x.args[0] == "" and y.op == "str":
                g = present_hook[0](y.args)
                if g is not None:
                    return gnot(g)
    na, nb = asnum(p), asnum(q)
    if na is not None and nb is not None:
        return FALSE
    if "abs" in p.ops or "abs" in q.ops:
        d = sub(p, q)
        if _unsigned(d):
            return by_sign(_eq_plain, d)
    if a is not None and nb is not None or b is not None and na is not None:
        c = a if a is not None else b
        n = nb if nb is not None else na
        if c.op == "true":
            return TRUE if n == 1 else FALSE
        if c.op == "false":
            return TRUE if n == 0 else FALSE
        if isconst_atom(c) or c.op in ("obj", "New", "tup", "list", "fmt"):
            return FALSE
    if a is not None and b is not None:
        for x, y in ((a, b), (b, a)):
            if x.op in ("obj", "New", "inst", "tup", "list", "fmt", "dict", "cls", "fn", "len", "seq", "str", "map") and y.op in (
                    "none", "true", "false"):
                return FALSE
            if x.op in ("obj", "tup", "list") and y.op in ("s",):
                return FALSE
            if x.op == "fmt" and y.op == "s" and not y.args[0]:
                g = present_hook[0]((("e", vt(x), TRUE),))
                if g is TRUE:
                    return FALSE
        if a.op == "obj" and b.op == "obj":
            return FALSE
        if never_eq_hook[0](a, b):
            return FALSE
        r = eq_hook[0](a, b)
        if r is not None:
            return r
    a, b = _infinite(p), _infinite(q)
    if a or b:
        if a == b:
            return TRUE
        if a and b:
            return FALSE
    d = sub(p, q)
    if _infinite(d):
        return FALSE
    if "sum_" in d.ops:
        if clear_sums(d) is ZERO:
            return TRUE
    if d is ZERO:
        return TRUE
    n = asnum(d)
    if n is not None:
        return FALSE
    if "sum" in d.ops and len(d.items) <= 2:
        r = _counted(d)
        if r and r[1] < 2:
            return gnot(r[2]) if r[1] == 1 else FALSE
    d = scale(d, F1 / _lead(d))
    if len(d.items) == 1:
        m, cs = d.items[0]
        if len(cs) == 1 and cs[0][1] is TRUE and (len(m) > 1 or m[0][1] != 1) and not any(t.op == "inf" for t, e in m):
            # a product is zero when a factor is
            return gany(_eq_plain(vt(t), ZERO) for t, e in m if e > 0)
    elif all(m for m, cs in d.items):
        ex = dict(d.items[0][0])
        for m, cs in d.items[1:]:
            mm = dict(m)
            ex = {t: min(e, mm[t]) for t, e in ex.items() if t in mm and (e > 0) == (mm[t] > 0)}
        # (the exponent nearest to zero of a negative power is not common)
        ex = {t: e for t, e in ex.items() if e > 0 and t.op not in ("inf", "none")}
        if ex:
            f = tuple(sorted(((t, -e) for t, e in ex.items()), key=lambda x: x[0].id))
            rest = _mkv({_monomul(m, f): dict(cs) for m, cs in d.items})
            return gor(gany(_eq_plain(vt(t), ZERO) for t in ex), _eq_plain(rest, ZERO))
    if len(d.items) > 1:
        # None is not the result of an arithmetic operation
        kn = None
        for m, cs in d.items:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "none" and len(cs) == 1:
                kn = cs[0][0]
        if kn is not None:
            if len(d.items) > 2:
                return FALSE
            for m, cs in d.items:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "none":
                    continue
                if len(m) != 1 or m[0][1] != 1 or (len(cs) == 1 and cs[0][0] != -kn) or (m[0][0].op in ("len", "count") or m[0][0] in finite or isidx(m[0][0])):
                    return FALSE
    if nonneg(d):
        k = _constpart(d)
        if k > 0:
            return FALSE
    if len(d.items) > 1 and _gcd_free(d):
        return FALSE
    if any(t in idx_hi for t in d.free) and (_bounded_neg(d) or _bounded_neg(neg(d))):
        return FALSE
    if "floor" in d.ops:
        r = remainder_hook[0](d)
        if r is not None:
            return r
    t = mk("eq", d)
    if t not in _sibs:
        _register(t, d)
    return gatom(t)


def _gcd_free(d):
    """no integer solution: every term is an integer with a coefficient not dividing the constant"""
    c = F0
    cs_ = []
    for m, cs in d.items:
        if len(cs) != 1 or cs[0][1] is not TRUE:
            return False
        if m == ():
            c = cs[0][0]
            continue
        for t, e in m:
            if not (t.op in ("len", "count") or isidx(t)) or e.denominator != 1 or e < 0:
                return False
        cs_.append(cs[0][0])
    if not cs_ or c == 0:
        return False
    den = 1
    for k in cs_:
        den = den * k.denominator // math.gcd(den, k.denominator)
    g = 0
    for k in cs_:
        g = math.gcd(g, int(k * den))
    return (c * den / g).denominator != 1


def _constpart(d):
    for m, cs in d.items:
        if m == ():
            return cs[0][0]
    return F0


def eq(a, b):
    return gmap(_eq_plain, a, b)


def _bounded_neg(d):
    """d < 0 provable from loop bounds (idx < hi)"""
    for m, cs in d.items:
        if len(m) == 1 and m[0][0] in idx_hi and m[0][1] == 1 and cs[0][0] > 0:
            t = m[0][0]
            hi = idx_hi.get(t)
            if hi is None or not isplain(hi):
                continue
            # t <= hi - 1 ; replace t by hi-1 : if result <=... d <= d[t:=hi-1]
            e = add(d, scale(sub(sub(hi, ONE), vt(t)), cs[0][0]))
            if asnum(e) is not None and asnum(e) < 0:
                return True
            if e is not d and nonneg(neg(add(e, ONE))) and False:
                return True
    return False


idx_hi = {}


finite = set()


def _infinite(d):
    """sign of a difference that is infinite whatever the finite quantities in it are, or 0"""
    c = 0
    for m, cs in d.items:
        if len(cs) != 1 or cs[0][1] is not TRUE:
            return 0
        if len(m) == 1 and m[0][0].op == "inf" and m[0][1] == 1:
            c = 1 if cs[0][0] > 0 else -1
            continue
        for t, e in m:
            if t.op == "sum_":
                if not all(x in finite for k, w in t.args[0].items for x, y in k):
                    return 0
            elif t.op == "inf" or not (t in finite or t.op in ("len", "count") or isidx(t)):
                return 0
    return c


dup_hook = [lambda t: None]


def _counted(d):
    """(k, b, again) when d == k*(count - b) for a count that includes the position it is asked at;
    again: something else is counted too"""
    t = None
    c = F0
    for m, cs in d.items:
        if len(cs) != 1 or cs[0][1] is not TRUE:
            return None
        if m == ():
            c = cs[0][0]
        elif t is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and m[0][0].args[2] is ONE:
            t, k = m[0][0], cs[0][0]
        else:
            return None
    if t is None or not F0 < -c / k <= 2:
        return None
    g = dup_hook[0](t)
    return None if g is None else (k, -c / k, g)


def _unsigned(d):
    """the argument of an absolute value the difference d is linear in"""
    for m, cs in d.items:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "abs" and len(cs) == 1:
            a = m[0][0].args[0]
            if a.__class__ is not V or not isplain(a):
                continue
            if not any(x is m[0][0] for k, c in d.items if k is not m for x, _ in k):
                return m[0][0], a, cs[0][0]
    return None


def by_sign(f, d):
    t, a, c = _unsigned(d)
    rest = sub(d, scale(vt(t), c))
    return gite(gmap(_lt_plain, a, ZERO), gmap(f, sub(rest, scale(a, c)), ZERO), gmap(f, add(rest, scale(a, c)), ZERO))


def _lt_plain(p, q):
    a, b = _infinite(p), _infinite(q)
    if a and b:
        return TRUE if a < b else FALSE
    d = sub(p, q)
    if d is ZERO:
        return FALSE
    c = _infinite(d)
    if c:
        return TRUE if c < 0 else FALSE
    n = asnum(d)
    if n is not None:
        return TRUE if n < 0 else FALSE
    for t in [m[0][0] for m, cs in d.items if len(m) == 1]:
        if t.op == "inf":
            c = [cs[0][0] for m, cs in d.items if len(m) == 1 and m[0][0] is t][0]
            if len(d.items) == 1 or all(True for _ in ()):
                rest = [m for m, cs in d.items if not (len(m) == 1 and m[0][0] is t)]
                if not rest:
                    return TRUE if c < 0 else FALSE
    if "sum" in d.ops and len(d.items) <= 2:
        r = _counted(d)
        if r:
            k, b, g = r
            if k > 0:
                return FALSE if b <= 1 else gnot(g)
            if b < 2:
                return TRUE if b < 1 else g
    if "abs" in d.ops and _unsigned(d):
        return by_sign(_lt_plain, d)
    k = _lead(d)
    s = scale(d, F1 / abs(k))
    if nonneg(s):
        return FALSE
    ng = neg(s)
    if nonneg(ng) and _constpart(ng) > 0:
        return TRUE
    if _bounded_neg(s):
        return TRUE
    if k > 0:
        return gand(gnot(_eq_plain(d, ZERO)), gatom(mk("lt", s)))
    if nonneg(ng):
        return gnot(_eq_plain(d, ZERO))
    if _bounded_neg(ng):
        return FALSE
    return gand(gnot(_eq_plain(d, ZERO)), gnot(gatom(mk("lt", ng))))


def lt(a, b):
    return gmap(_lt_plain, a, b)


def le(a, b):
    return gnot(lt(b, a))


# ---------------------------------------------------------------- booleans
def fromg(g):
    if g is TRUE:
        return VT
    if g is FALSE:
        return VF
    return vite(g, VT, VF)


truth_hook = [lambda t: None]


def truth(v):
    def f(p):
        n = asnum(p)
        if n is not None:
            return TRUE if n != 0 else FALSE
        t = asT(p)
        if t is not None:
            if t.op == "true":
                return TRUE
            if t.op in ("false", "none"):
                return FALSE
            if t.op == "s":
                return TRUE if t.args[0] else FALSE
            if t.op == "tup":
                return TRUE if t.args else FALSE
            if t.op in ("New", "cls", "fn", "enum"):
                return TRUE
            r = truth_hook[0](t)
            if r is not None:
                return r
            return gand(gatom(mk("truth", p)), gand(gnot(_eq_plain(p, ZERO)), gnot(_eq_plain(p, NONE))))
        return gnot(_eq_plain(p, ZERO))

    return gmap(f, v)


# ---------------------------------------------------------------- substitution
BINDERS = {}      # op -> number of args (after h) outside the binder
binder_hook = {}  # op -> function(sym, *args) -> V or G
_fresh = [0]


def fresh(kind="i"):
    _fresh[0] += 1
    return mk("sym", kind, _fresh[0])


post_hook = {}  # op -> function(*args) rebuilding a term as V (smart constructors)


class Subst:
    def __init__(self, m):
        """m: T -> V"""
        self.m = m
        self.keys = frozenset(m)
        self.mt = {}
        self.mg = {}
        self.mv = {}

    def t(self, t):
        """T -> V"""
        r = self.m.get(t)
        if r is not None:
            return r
        if not (t.free & self.keys) and not self._bvhit(t):
            return vt(t)
        r = self.mt.get(t)
        if r is None:
            if t.op in BINDERS:
                s = fresh("b")
                h0 = t.args[0]
                inner = Subst({mk("bv", h0): vt(s)})
                nb = BINDERS[t.op]          # leading args outside the binder (after h)
                out = tuple(self.any(a) for a in t.args[1:1 + nb])
                if t.op in ("ex", "sum", "sel", "maxf", "rec") and isinstance(out[0], V):
                    idx_hi[s] = out[0]
                body = tuple(self.any(inner.any(a)) for a in t.args[1 + nb:])
                r = binder_hook[t.op](s, *(out + body))
            else:
                args = tuple(self.any(a) for a in t.args)
                h = post_hook.get(t.op)
                if h is not None:
                    r = h(*args)
                else:
                    r = vt(mk(t.op, *args))
            self.mt[t] = r
        return r

    def _bvhit(self, t):
        for k in self.keys:
            if k.op not in ("sym", "lc"):
                # arbitrary term key: check containment conservatively through ops
                if k.op in t.ops:
                    return True
        return False

    def any(self, a):
        if isinstance(a, V):
            return self.v(a)
        if isinstance(a, G):
            return self.g(a)
        if isinstance(a, T):
            r = self.t(a)
            x = asT(r)
            return x if x is not None else r
        if isinstance(a, tuple):
            if len(a) == 4 and a[0] == "l" and isinstance(a[1], int):
                s = fresh("b")
                hi = self.any(a[2])
                body = self.any(Subst({mk("bv", a[1]): vt(s)}).any(a[3]))
                h, (b,) = bind(s, body)
                return ("l", h, hi, b)
            return tuple(self.any(x) for x in a)
        return a

    def v(self, v):
        if not (v.free & self.keys) and not any(k.op not in ("sym", "lc") and k.op in v.ops for k in self.keys):
            return v
        r = self.mv.get(v)
        if r is None:
            r = ZERO
            for m, cs in v.items:
                base = ONE
                for t, e in m:
                    x = self.t(t)
                    base = mul(base, x if e == 1 else power(x, e))
                for c, g in cs:
                    r = add(r, guarded(self.g(g), scale(base, c)))
            self.mv[v] = r
        return r

    def g(self, g):
        if g.var is None:
            return g
        if not (g.free & self.keys) and not any(k.op not in ("sym", "lc") and k.op in g.ops for k in self.keys):
            return g
        r = self.mg.get(g)
        if r is None:
            a = self.atom(g.var)
            r = gite(a, self.g(g.hi), self.g(g.lo))
            self.mg[g] = r
        return r

    def atom(self, t):
        r = self.m.get(t)
        if r is not None:
            return truth(r)
        if not (t.free & self.keys) and not self._bvhit(t):
            return gatom(t)
        if t.op in BINDERS:
            r = self.t(t)
            if isinstance(r, G):
                return r
            return truth(r)
        if t.op == "eq":
            return eq(self.v(t.args[0]), ZERO)
        if t.op == "lt":
            d = self.v(t.args[0])
            if d is t.args[0]:
                return gatom(t)
            return lt(d, ZERO)
        h = gpost_hook.get(t.op)
        if h is not None:
            return h(*tuple(self.any(a) for a in t.args))
        r = asT(self.t(t))
        if r is None:
            return truth(self.t(t))
        if r.op == "true":
            return TRUE
        if r.op == "false":
            return FALSE
        return gatom(r)


gpost_hook = {}


def subst(x, m):
    s = Subst(m)
    return s.any(x)


# binder handling ------------------------------------------------------
def height(*xs):
    h = 0
    for x in _walk_args(xs):
        h = max(h, x.h)
    return h


def bind(sym, *xs):
    """close xs over the fresh symbol sym; returns (h, closed xs)"""
    h = height(*xs) + 1
    b = vt(mk("bv", h))
    s = Subst({sym: b})
    return h, tuple(s.any(x) for x in xs)


def open_(h, v, *xs):
    s = Subst({mk("bv", h): v})
    return tuple(s.any(x) for x in xs)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "..."
    o, a = t.op, t.args
    if o == "s":
        return repr(a[0])
    if o in ("none", "true", "false"):
        return o.capitalize()
    if o == "param":
        return str(a[0])
    if o in ("sym", "lc", "idx", "bv"):
        return o + "".join("_" + str(x) for x in a if isinstance(x, (int, str)))
    if o == "attr":
        return showa(a[0], d + 1) + "." + a[1].split("__")[-1] if isinstance(a[1], str) else "attr"
    if o == "item":
        return showa(a[0], d + 1) + "[" + showa(a[1], d + 1) + "]"
    if o == "eq":
        return "(" + showa(a[0], d + 1) + " == 0)"
    if o == "lt":
        return "(" + showa(a[0], d + 1) + " < 0)"
    if o == "isa":
        return showa(a[0], d + 1) + " is " + str(a[1])
    return o + "(" + ", ".join(showa(x, d + 1) for x in a) + ")"


def showa(a, d=0):
    if isinstance(a, V):
        return showv(a, d)
    if isinstance(a, T):
        return show(a, d)
    if isinstance(a, G):
        return showg(a, d)
    if isinstance(a, tuple):
        return "<" + ", ".join(showa(x, d) for x in a) + ">"
    return str(a)


def showv(v, d=0):
    if v is ZERO:
        return "0"
    if d > 14:
        return "..."
    out = []
    for m, cs in v.items:
        ms = "*".join(show(t, d + 1) + ("" if e == 1 else "^" + str(e)) for t, e in m)
        for c, g in cs:
            s = ms
            if c != 1 or not ms:
                s = str(c) + ("*" + ms if ms else "")
            if g is not TRUE:
                s = "[" + showg(g, d + 1) + "]" + s
            out.append(s)
    return " + ".join(out)


PATHS = int(__import__("os").environ.get("PATHS", 6))


def showg(g, d=0):
    if g is TRUE:
        return "T"
    if g is FALSE:
        return "F"
    if d > 14:
        return "..."
    # sum of paths
    out = []

    def rec(x, acc):
        if len(out) > PATHS:
            return
        if x is FALSE:
            return
        if x is TRUE:
            out.append(" & ".join(acc))
            return
        s = show(x.var, d + 1)
        rec(x.hi, acc + [s])
        rec(x.lo, acc + ["!" + s])

    rec(g, [])
    return " | ".join(out[:PATHS]) + (" |..." if len(out) > PATHS else "")
