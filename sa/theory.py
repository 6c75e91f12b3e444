"""Consistency of guard cubes: bounds per linear form, constant/class exclusivity, quantifier instances."""
from fractions import Fraction
from math import gcd
from .core import *
from .core import _lt_plain, _eq_plain
from . import core

F0, F1 = Fraction(0), Fraction(1)
INTOPS = {"len", "count", "bv", "index", "floor"}


class Budget(Exception):
    pass


def integral(t):
    if t.op in INTOPS:
        return True
    if t.op == "sum" and t.args[2] is ONE:
        return True
    if t.op == "sym" and t.args[0] in ("i", "b"):
        return True
    if t.op == "sel" and isplain(t.args[3]):
        return all(e.denominator == 1 and e > 0 and integral(x) for m, cs in t.args[3].items for x, e in m) and \
            all(k.denominator == 1 for m, cs in t.args[3].items for k, g in cs)
    return False


def lin(d):
    """plain V -> (L, const, constatom): d == L + const (+ -1*constatom)"""
    c = F0
    rest = {}
    ka = None
    for m, cs in d.items:
        if len(cs) != 1 or cs[0][1] is not TRUE:
            return None
        k = cs[0][0]
        if m == ():
            c = k
        elif len(m) == 1 and m[0][1] == 1 and isconst_atom(m[0][0]):
            if ka is not None:
                return None
            ka = (m[0][0], k)
        else:
            rest[m] = k
    return rest, c, ka


class Facts:
    def __init__(self, ints=frozenset()):
        self.ints = ints
        self.eqc = {}     # key -> value
        self.ne = {}      # key -> set
        self.lo = {}      # key -> (val, strict)
        self.hi = {}
        self.rows = {}

    def isint(self, key):
        return all(all((integral(t) or t in self.ints) and e.denominator == 1 and e > 0 for t, e in m) and x.denominator == 1
                   for m, x in key)

    def copy(self):
        f = Facts(self.ints)
        f.eqc = dict(self.eqc)
        f.ne = dict(self.ne)
        f.lo = dict(self.lo)
        f.hi = dict(self.hi)
        f.rows = dict(self.rows)
        return f

    def add(self, atom, val):
        """False when inconsistent"""
        if atom.op not in ("eq", "lt"):
            return True
        r = lin(atom.args[0])
        if r is None:
            return True
        rest, c, ka = r
        if not rest:
            return True
        ms = sorted(rest, key=core._mono_key)
        k0 = rest[ms[0]]
        key = tuple((m, rest[m] / k0) for m in ms)
        if ka is not None:
            if atom.op != "eq" or c != 0 or len(ms) != 1 or ka[1] / k0 != -1:
                return True
            v = ka[0]
        else:
            v = -c / k0
        if key not in self.rows:
            self.rows[key] = True
            if len(key) > 1:
                self.seed(key)
        isint = self.isint(key)
        if atom.op == "eq":
            if val:
                if key in self.eqc:
                    return self.eqc[key] == v
                if v in self.ne.get(key, ()):
                    return False
                self.eqc[key] = v
                if isinstance(v, Fraction):
                    if isint and v.denominator != 1:
                        return False
                    return self.bound(key, v, False, 0, isint) and self.bound(key, v, False, 1, isint)
                return key not in self.lo and key not in self.hi
            if key in self.eqc:
                return self.eqc[key] != v
            self.ne[key] = self.ne.get(key, frozenset()) | {v}
            return self.chk(key)
        # lt
        if key in self.eqc and not isinstance(self.eqc[key], Fraction):
            return False
        up = (k0 > 0) == bool(val)
        return self.bound(key, v, bool(val), 1 if up else 0, isint)

    def seed(self, key):
        """p - floor(p) lies in [0, 1)"""
        co = dict(key)
        for m, k in key:
            if len(m) == 1 and m[0][0].op == "floor" and m[0][1] == 1 and isplain(m[0][0].args[0]):
                s, c, d = -k, F0, 1
                rest = {}
                for mm, cs in m[0][0].args[0].items:
                    if mm == ():
                        c = cs[0][0]
                    else:
                        rest[mm] = s * cs[0][0]
                    d = d * cs[0][0].denominator // gcd(d, cs[0][0].denominator)
                rest[m] = k
                if rest == co:
                    top = Fraction(d - 1, d) if self.isint(tuple((mm, F1) for mm in rest)) else F1
                    a, b = -c * s, (top - c) * s
                    st = top == 1
                    if s < 0:
                        a, b = b, a
                    isint = self.isint(key)
                    self.bound(key, a, s < 0 and st, 0, isint)
                    self.bound(key, b, s > 0 and st, 1, isint)
                return

    def bound(self, key, v, strict, up, isint):
        if isint:
            if up:
                n = -((-v) // 1) - 1 if strict else v // 1
                if strict and v.denominator != 1:
                    n = v // 1
            else:
                n = v // 1 + 1 if strict else -((-v) // 1)
            v, strict = Fraction(n), False
        d = self.hi if up else self.lo
        o = d.get(key)
        if o is None or (up and (v < o[0] or (v == o[0] and strict))) or (not up and (v > o[0] or (v == o[0] and strict))):
            d[key] = (v, strict)
        return self.chk(key)

    def chk(self, key):
        lo, hi = self.lo.get(key), self.hi.get(key)
        if key in self.eqc and isinstance(self.eqc[key], Fraction):
            v = self.eqc[key]
            if lo and (v < lo[0] or v == lo[0] and lo[1]):
                return False
            if hi and (v > hi[0] or v == hi[0] and hi[1]):
                return False
        if hi and not lo and len(key) == 1 and key[0][1] > 0 and nonneg_key(key):
            lo = (F0, False)
        if lo and hi and not lo[1] and not hi[1] and hi[0] - lo[0] < 12 and key in self.ne and self.isint(key):
            a, b, ne = lo[0], hi[0], self.ne[key]
            while a <= b and a in ne:
                a += 1
            if a > b:
                return False
        if lo and hi:
            if lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1])):
                return False
            if lo[0] == hi[0] and lo[0] in self.ne.get(key, ()):
                return False
        if len(key) == 1 and lo is None and hi is not None and nonneg_key(key):
            if hi[0] < 0 or (hi[0] == 0 and (hi[1] or F0 in self.ne.get(key, ()))):
                return False
        return True

    def rowlist(self):
        out = []
        for key in self.rows:
            base = dict(key)
            if key in self.hi:
                v, s = self.hi[key]
                s = s or v in self.ne.get(key, ())
                out.append((base, -v, s))
            if key in self.lo:
                v, s = self.lo[key]
                s = s or v in self.ne.get(key, ())
                out.append(({m: -c for m, c in base.items()}, v, s))
        return out


def nonneg_key(key):
    p = core._mkv({key[0][0]: {F1: TRUE}})
    return nonneg(p)


def products(rows, monos):
    """sign of products of non-negative factors, and rows multiplied by a non-negative atom occurring in a product"""
    pos, spos = set(), set()
    for r, c, s in rows:
        if len(r) == 1:
            (m, k), = r.items()
            if len(m) == 1 and m[0][1] == 1 and k < 0 and c >= 0:
                pos.add(m[0][0])
                if s or c > 0:
                    spos.add(m[0][0])
    atoms = set()
    for m in monos:
        for t, e in m:
            if len(m) > 1 or e != 1:
                atoms.add((t, 1 if e > 0 else -1))
                if t not in pos and nonneg(core._mkv({((t, F1),): {F1: TRUE}})):
                    pos.add(t)
    out = []
    for m in monos:
        if (len(m) > 1 or (m and m[0][1] != 1)) and all(t in pos or (e.denominator == 1 and e % 2 == 0) for t, e in m):
            out.append(({m: Fraction(-1)}, F0, all(t in spos or t in pos and e < 0 for t, e in m)))
    for t, e in sorted(atoms, key=lambda a: (a[0].id, a[1])):
        if t not in pos:
            continue
        f = ((t, Fraction(e)),)
        for r, c, s in rows:
            if len(r) == 1 and next(iter(r)) == f and e > 0:
                continue
            q = {}
            for m, k in r.items():
                q[core._monomul(m, f)] = k
            k0 = q.pop((), F0)
            if c != 0:
                q[f] = q.get(f, F0) + c
            if q and all(m in monos or m == f for m in q) and len(out) < 12:
                out.append((q, k0, s and (e < 0 or t in spos)))
                if f in q:
                    out.append(({f: Fraction(-1)}, F0, False))
    # rows multiplied by a product of several factors
    done = set()
    for r, c, s in rows:
        if len(r) < 2 or len(out) >= 16:
            continue
        m0 = min(r, key=core._mono_key)
        for m in monos:
            f = core._monomul(m, tuple((t, -e) for t, e in m0))
            if len(f) < 2 or not all(t in pos for t, e in f) or (id(r), f) in done:
                continue
            done.add((id(r), f))
            q = {core._monomul(x, f): k for x, k in r.items()}
            if c != 0:
                q[f] = q.get(f, F0) + c
            k0 = q.pop((), F0)
            if all(x in monos for x in q) and len(out) < 16:
                out.append((q, k0, s and all(t in spos or e < 0 for t, e in f)))
    return out


def cleared(rows):
    """rows whose reciprocals of provably positive sums are multiplied out"""
    dens = {t for r, c, s in rows for m in r for t, e in m if t.op == "sum_" and e < 0}
    if not dens:
        return rows
    pos = set()
    for r, c, s in rows:
        if len(r) == 1:
            (m, k), = r.items()
            if len(m) == 1 and m[0][1] == 1 and k < 0 and (c > 0 or c >= 0 and s):
                pos.add(m[0][0])
    out = list(rows)
    for t in sorted(dens, key=lambda a: a.id):
        q = {m: cs[0][0] for m, cs in t.args[0].items if len(cs) == 1 and cs[0][1] is TRUE}
        if len(q) != len(t.args[0].items) or len(q) > 4:
            continue
        if not all(k > 0 and all(x in pos for x, e in m) for m, k in q.items()):
            continue
        for i, (r, c, s) in enumerate(out):
            d = min((e for m in r for x, e in m if x is t), default=0)
            if d not in (-1, -2):
                continue
            p = dict(r)
            if c:
                p[()] = c
            for _ in range(int(-d)):
                n = {}
                for m, k in p.items():
                    ex = dict(m).get(t, 0)
                    if ex < 0:
                        x = core._monomul(m, ((t, F1),))
                        n[x] = n.get(x, F0) + k
                    else:
                        for y, l in q.items():
                            x = core._monomul(m, y)
                            n[x] = n.get(x, F0) + k * l
                p = {m: k for m, k in n.items() if k}
            k0 = p.pop((), F0)
            if len(p) <= 24:
                out[i] = (p, k0, s)
    return out


_empty_memo = {}


def rounded(r, c, s, ints):
    """r.x + c <= 0 over integers: divide by the common divisor of r and round c up"""
    if not s and c.denominator == 1 and all(k in (1, -1) for k in r.values()):
        return c, s
    for m in r:
        for t, e in m:
            if e.denominator != 1 or e < 0 or not (t in ints or integral(t)):
                return c, s
    d = 1
    for k in r.values():
        d = d * k.denominator // gcd(d, k.denominator)
    g = 0
    for k in r.values():
        g = gcd(g, int(k * d))
    f = Fraction(d, g)
    c = c * f
    if c.denominator != 1:
        c = Fraction(-((-c) // 1))
    elif s:
        c += 1
    return c / f, False


def polyhedron_empty(rows, cap=220, ints=frozenset()):
    """rational emptiness of {row < 0 / <= 0}, by independent groups of rows"""
    groups = []
    for row in rows:
        at = {t for m in row[0] for t, e in m}
        for t in list(at):
            h = core.idx_hi.get(t)
            if h is not None:
                at |= {x for m, cs in h.items for x, e in m}
            if t.op == "floor":
                at |= {x for m, cs in t.args[0].items for x, e in m}
        new = [at, [row]]
        keep = []
        for gr in groups:
            if gr[0] & new[0]:
                new = [new[0] | gr[0], gr[1] + new[1]]
            else:
                keep.append(gr)
        groups = keep + [new]
    for at, rs in groups:
        here = ints & at
        k = (frozenset((frozenset(r.items()), c, s) for r, c, s in rs), cap, here)
        if k not in _empty_memo:
            _empty_memo[k] = _polyhedron_empty(rs, cap, here)
        if _empty_memo[k]:
            return at
    return None


def _polyhedron_empty(rows, cap, ints):
    """elimination, rounding the rows over integers"""
    monos = set()
    for r, c, s in rows:
        monos |= set(r)
    extra = []
    floors = {t for m in monos for t, e in m if t.op == "floor" and isplain(t.args[0])}
    for t in floors:
        d = {}
        cc = F0
        for mm, cs in t.args[0].items:
            if mm == ():
                cc = cs[0][0]
            else:
                d[mm] = -cs[0][0]
        f = ((t, F1),)
        d[f] = d.get(f, F0) + F1
        extra.append((d, -cc, False))
        extra.append(({m: -k for m, k in d.items()}, cc - 1, True))
        monos |= set(d)
    for m in list(monos):
        if len(m) > 1 or (m and m[0][1] != 1):
            monos |= {((t, F1),) for t, e in m if t in core.idx_hi}
    for m in monos:
        if nonneg(core._mkv({m: {F1: TRUE}})):
            extra.append(({m: Fraction(-1)}, F0, False))
        if len(m) == 1 and m[0][1] == 1:
            h = core.idx_hi.get(m[0][0])
            if h is not None and isplain(h):
                d = {m: F1}
                cc = F1
                ok = True
                for mm, cs in h.items:
                    if mm == ():
                        cc -= cs[0][0]
                    else:
                        d[mm] = d.get(mm, F0) - cs[0][0]
                extra.append((d, cc, False))
    rows = rows + extra
    for r, c, s in rows:
        monos |= set(r)
    if any(len(m) > 1 or (m and m[0][1] != 1) for m in monos):
        rows = rows + products(rows, monos)
        for r, c, s in rows:
            monos |= set(r)
    monos = sorted(monos, key=core._mono_key)
    if len(monos) > 14:
        return False
    while True:
        live = []
        seen = set()
        for r, c, s in rows:
            r = {m: k for m, k in r.items() if k != 0}
            if not r:
                if c > 0 or (c == 0 and s):
                    return True
                continue
            c, s = rounded(r, c, s, ints)
            k = abs(next(iter(sorted(r.items(), key=lambda x: core._mono_key(x[0]))))[1])
            r = {m: x / k for m, x in r.items()}
            c = c / k
            key = (frozenset(r.items()), c, s)
            if key in seen:
                continue
            seen.add(key)
            live.append((r, c, s))
        rows = live
        vs = {}
        for r, c, s in rows:
            for m, k in r.items():
                a = vs.setdefault(m, [0, 0])
                a[0 if k > 0 else 1] += 1
        if not vs:
            return False
        wide = set()
        for r, c, s in rows if floors else ():
            low = min(abs(k) for k in r.values())
            wide |= {m for m, k in r.items() if abs(k) != low}
        m = min(vs, key=lambda x: (x in wide, vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1]))
        pos = [x for x in rows if x[0].get(m, 0) > 0]
        neg_ = [x for x in rows if x[0].get(m, 0) < 0]
        new = [x for x in rows if not x[0].get(m, 0)]
        for a in pos:
            for b in neg_:
                ka, kb = a[0][m], -b[0][m]
                r = {}
                for mm, k in a[0].items():
                    r[mm] = r.get(mm, F0) + k * kb
                for mm, k in b[0].items():
                    r[mm] = r.get(mm, F0) + k * ka
                r.pop(m, None)
                new.append((r, a[1] * kb + b[1] * ka, a[2] or b[2]))
        if len(new) > cap:
            return False
        rows = new


class Theory:
    def __init__(self, pkg=None):
        self.pkg = pkg
        self.memo = {}
        self.nogoods = {}
        self.steps = 0

    # -------------------------------------------------------------- search
    def feasible(self, g, depth=0):
        """a consistent cube [(atom, bool)] of g, or None"""
        if g is FALSE:
            return None
        k = (g.id, depth)
        if k in self.memo:
            return self.memo[k]
        self.steps = 0 if depth == 0 else self.steps
        full = g
        if depth == 0:
            for t in sorted(g.free, key=lambda t: t.id):
                h = core.idx_hi.get(t)
                if h is not None and not isplain(h) and t.op == "sym":
                    full = gand(full, lt(vt(t), h))
        r = self.search(full, Facts(), [], depth)
        self.memo[k] = r
        return r

    def search(self, g, f, cube, depth):
        self.steps += 1
        if self.steps > 60000:
            raise Budget("theory")
        if g is FALSE:
            return None
        if g is TRUE:
            return list(cube) if self.leaf(f, cube, depth) else None
        for b, nx in ((True, g.hi), (False, g.lo)):
            if nx is FALSE:
                continue
            f2 = f.copy()
            if not f2.add(g.var, b):
                continue
            if not self.quick(g.var, b, cube):
                continue
            if (g.var, b) in self.nogoods:
                d = dict(cube)
                if any(all(d.get(x) is y for x, y in n) for n in self.nogoods[g.var, b]):
                    continue
            cube.append((g.var, b))
            r = self.search(nx, f2, cube, depth)
            cube.pop()
            if r is not None:
                return r
        return None

    def learn(self, lits):
        lits = set(lits)
        if len(lits) > 14:
            return
        for x in lits:
            self.nogoods.setdefault(x, []).append(frozenset(lits - {x}))

    def quick(self, a, b, cube):
        if a.op == "isa" and b:
            for x, y in cube:
                if y and x.op == "isa" and x.args[0] is a.args[0] and self.disjoint(x.args[1], a.args[1]):
                    return False
        if a.op == "truth" or (a.op == "eq" and b):
            pass
        return True

    def disjoint(self, c, d):
        if c == d:
            return False
        p = self.pkg
        if p is None:
            return False
        if c in p.classes and d in p.classes:
            subs = {x.name for x in p.subclasses(c)} | {c}
            subd = {x.name for x in p.subclasses(d)} | {d}
            return not (subs & subd)
        if {c, d} <= {"int", "float", "str", "list", "dict", "tuple"}:
            return True
        return False

    def leaf(self, f, cube, depth):
        if not f.ints:
            ints = {a.args[0] for a, b in cube if b and a.op == "isa" and a.args[1] == "int"}
            if ints:
                f = Facts(frozenset(ints))
                for a, b in cube:
                    if not f.add(a, b):
                        return False
        cn = self.counts(cube)
        if cn:
            f = f.copy()
            for (a, b), t in cn:
                z = _lt_plain(ZERO, vt(t)) if b else _eq_plain(vt(t), ZERO)
                v = True
                if z.hi is FALSE:
                    v = False
                if z is FALSE or z.var is not None and not f.add(z.var, v):
                    self.learn([(a, b)] + [(x, y) for x, y in cube if x.op in ("eq", "lt") and t in roots_of(x)])
                    return False
        rows = cleared(f.rowlist())
        if len(rows) > 1 and len(rows) <= 40:
            e = polyhedron_empty(rows, ints=f.ints)
            if e:
                self.learn([(a, b) for a, b in cube if (a.op in ("eq", "lt") and any(
                    t in e for m, cs in a.args[0].items for t, x in m)) or (a.op == "isa" and a.args[0] in e)])
                return False
        # disequalities squeezed by weak bounds: L != 0 with L <= 0 and L >= 0 (different rows)
        for key, vals in f.ne.items():
            if len(rows) <= 20:
                for v in vals:
                    if isinstance(v, Fraction) and len(key) > 1 or (len(key) == 1 and isinstance(v, Fraction) and rows):
                        base = dict(key)
                        up = rows + [(base, -v, True)]
                        dn = rows + [({m: -c for m, c in base.items()}, v, True)]
                        if polyhedron_empty(up, ints=f.ints) and polyhedron_empty(dn, ints=f.ints):
                            return False
        if not self.congruent(f, cube, depth):
            return False
        if depth >= 2:
            return True
        return self.quant(cube, depth) and (depth > 0 or self.points(cube, f.ints))

    def points(self, cube, ints):
        """no element satisfies a condition: in particular not the one an equation in the condition singles out"""
        for a, b in cube:
            if b or a.op != "ex":
                continue
            w = fresh("i")
            body, = open_(a.args[0], vt(w), a.args[2])
            out = []
            for x in gsupp(body):
                if x is None or x.op != "eq" or w not in x.free or not isplain(x.args[0]):
                    continue
                d = x.args[0]
                k = None
                for m, cs in d.items:
                    if len(m) == 1 and m[0] == (w, 1):
                        k = cs[0][0]
                if k is None:
                    continue
                c = sub(vt(w), scale(d, F1 / k))
                if w in c.free or len(c.items) > 4 or not all(
                        cs[0][0].denominator == 1 and all((integral(t) or t in ints) and e.denominator == 1 and e > 0 for t, e in m)
                        for m, cs in c.items):
                    continue
                if c not in out:
                    out.append(c)
            g = TRUE
            for c in out[:4]:
                nb, = open_(a.args[0], c, a.args[2])
                g = gand(g, gnot(gand(nb, gand(gnot(_lt_plain(c, ZERO)), lt(c, a.args[1])))))
            if g is TRUE:
                continue
            base, used = self.connected(cube, g)
            if self.feasible(gand(base, g), 1) is None:
                self.learn(used + [(a, False)])
                return False
        return True

    def counts(self, cube):
        """[(literal, count)]: some element has the property / none has, for a count of these that occurs in the cube"""
        ts = None
        out = []
        for a, b in cube:
            if a.op != "ex":
                continue
            if ts is None:
                ts = {}
                for x, y in cube:
                    if x.op in ("eq", "lt") and "sum" in x.ops:
                        for t in roots_of(x):
                            if t.op == "sum" and t.args[2] is ONE:
                                ts[t.args[1], t.args[3]] = t
                if not ts:
                    return ()
            t = ts.get((a.args[1], a.args[2]))
            if t is not None:
                out.append(((a, b), t))
                continue
            for (hi, _), t in ts.items():
                if hi is a.args[1]:
                    y = fresh("i")
                    g, = open_(a.args[0], vt(y), a.args[2])
                    c, = open_(t.args[0], vt(y), t.args[3])
                    if implies(g, c) if b else implies(c, g):
                        out.append(((a, b), t))
        return out

    def congruent(self, f, cube, depth=2):
        """replace equals by equals in the other literals"""
        eqs = [a for a, b in cube if b and a.op == "eq"]
        if not eqs or len(eqs) > 12:
            return True
        m = {}
        src = {}
        # shallow terms first: a deeper equation is rewritten by those before it
        for a in sorted(eqs, key=lambda x: max([t.id for t in roots_of(x)] or [0])):
            d = a.args[0]
            why = [a]
            if m and isplain(d):
                try:
                    d = Subst(m).any(d)
                except (Blowup, RecursionError):
                    pass
                if d is not a.args[0]:
                    why += [x for t, xs in src.items() if roots(t) <= roots(a) for x in xs]
            if not isplain(d):
                continue
            best = None
            for mono, cs in d.items:
                if len(mono) == 1 and mono[0][1] == 1 and not isconst_atom(mono[0][0]):
                    t = mono[0][0]
                    rest = scale(sub(d, scale(vt(t), cs[0][0])), -1 / cs[0][0])
                    if contains_term(rest, t):
                        continue
                    if best is None or t.id > best[0].id:
                        best = (t, rest)
            if best and best[0] not in m:
                m[best[0]] = best[1]
                src[best[0]] = why
        if not m:
            return True
        try:
            s = Subst(m)
            f2 = Facts()
            conj = TRUE
            split = False
            for a, b in cube:
                g = s.atom(a)
                conj = gand(conj, g if b else gnot(g))
                if b and a.op == "eq":
                    conj = gand(conj, gatom(a))
                if g is TRUE and not b or g is FALSE and b:
                    self.learn([(a, b)] + [(x, True) for t, xs in src.items() if roots(t) <= roots(a) for x in xs if x is not a])
                if conj is FALSE:
                    return False
                if g.var is not None and g.var.op != "ex" and a.op == "ex":
                    split = True
                if g is TRUE and not b or g is FALSE and b:
                    return False
                if g.var is not None and g.hi is TRUE and g.lo is FALSE:
                    if not f2.add(g.var, b):
                        return False
                elif g.var is not None and g.hi is FALSE and g.lo is TRUE:
                    if not f2.add(g.var, not b):
                        return False
            if split and depth < 2:
                return self.feasible(conj, depth + 1) is not None
        except (Blowup, RecursionError):
            return True
        return True

    def quant(self, cube, depth):
        pos = [a for a, b in cube if b and a.op == "ex"]
        neg_ = [a for a, b in cube if not b and a.op == "ex"]
        sels = set()
        if pos and any("sel" in a.ops for a, b in cube):
            for a, b in cube:
                if "sel" in a.ops and a.op in ("lt", "eq"):
                    for m, _ in a.args[0].items if isplain(a.args[0]) else ():
                        sels |= {t for t, e in m if t.op == "sel"}
        if not neg_ and (depth or not pos):
            return True
        syms = set()
        for a, b in cube:
            for s in a.free:
                if s in core.idx_hi:
                    syms.add(s)
        lits = dict(cube)

        def settle(v):
            """the value under the literals of the cube"""
            if isplain(v):
                return v, []
            out, on = [], []
            for g, p in pieces(v):
                while g.var is not None and g.var in lits:
                    on.append((g.var, lits[g.var]))
                    g = g.hi if lits[g.var] else g.lo
                if g is not FALSE:
                    out.append(p)
            return (out[0], on) if len(out) == 1 else (v, [])

        pts, on = [], []
        for s in syms:
            h, o = settle(core.idx_hi[s])
            pts.append((vt(s), h, TRUE))
            on.append(o)
        if depth == 0 and not self.instances(cube, neg_):
            return False
        npt = len(pts)
        for a in pos:
            w = fresh("i")
            core.idx_hi[w] = a.args[1]
            b, = open_(a.args[0], vt(w), a.args[2])
            # the element a search picks is one the search condition holds for
            for t in sels:
                if t.args[1] is a.args[1]:
                    tg, tv = open_(t.args[0], vt(w), t.args[2], t.args[3])
                    if tg is b:
                        b = gand(b, eq(vt(t), tv))
            pts.append((vt(w), a.args[1], b))
        why = on + [[(a, True)] for a in pos]
        eqs = {a for a, b in cube if b and a.op == "eq"}

        def same(x, y):
            e = _eq_plain(x, y)
            return e.var in eqs and e.hi is TRUE and e.lo is FALSE
        # a count that is not zero: some element is counted
        for a, v in cube:
            if not v and a.op == "eq" and "sum" in a.ops and isplain(a.args[0]) and len(a.args[0].items) == 1:
                ((m, _),) = a.args[0].items
                t = m[0][0]
                if len(m) == 1 and t.op == "sum" and t.args[2] is ONE:
                    w = fresh("i")
                    core.idx_hi[w] = t.args[1]
                    b, = open_(t.args[0], vt(w), t.args[3])
                    pts.append((vt(w), t.args[1], b))
                    why.append([(a, False)])
        for j, (w, hi, b) in enumerate(pts):
            hit = b is not TRUE and depth == 0
            src = list(why[j])
            g = b
            for a in neg_:
                if a.args[1] is not hi and isplain(hi) and isplain(a.args[1]) and same(hi, a.args[1]):
                    src.append((eq(hi, a.args[1]).var, True))
                if a.args[1] is hi or self.within(hi, a.args[1]):
                    nb, = open_(a.args[0], w, a.args[2])
                    g = gand(g, gnot(nb))
                    src.append((a, False))
                    hit = True
                elif isplain(hi) and isplain(a.args[1]) and (asnum(sub(hi, a.args[1])) is not None or same(hi, a.args[1])):
                    nb, = open_(a.args[0], w, a.args[2])
                    g = gand(g, gnot(gand(nb, lt(w, a.args[1]))))
                    src.append((a, False))
                    hit = True
            if not hit:
                continue
            if g is FALSE:
                self.learn(src)
                return False
            used = [x for x in cube if roots(x[0]) <= roots(g) and x not in src]
            if used and self.feasible(gand(gall(gatom(a) if b else gnot(gatom(a)) for a, b in used), g), depth + 1) is None:
                self.learn(src + used)
                return False
            base, used = self.connected(cube, g)
            if self.feasible(gand(base, g), depth + 1) is None:
                self.learn(src + used)
                return False
        return True

    def instances(self, cube, neg_):
        """the universal facts at the positions other literals read"""
        if not neg_ or not any("item" in a.ops for a in neg_):
            return True
        reads = {}
        for a, b in cube:
            if a.op in ("perr", "eq", "lt", "truth", "isa"):
                for t in item_reads(a):
                    if asT(t.args[1]) is None or asT(t.args[1]).op != "sym":
                        reads.setdefault(t.args[0], {}).setdefault(t.args[1], None)
        if not reads:
            return True
        n = 0
        for a in neg_:
            w = fresh("i")
            body, = open_(a.args[0], vt(w), a.args[2])
            if body.var is None or body.hi is not TRUE or body.lo is not FALSE:
                continue
            for t in item_reads(body.var):
                if t.args[1] is not vt(w) or t.args[0] not in reads:
                    continue
                for q in reads[t.args[0]]:
                    n += 1
                    if n > 12:
                        return True
                    x = gand(gand(le(ZERO, q), lt(q, a.args[1])), subst(body, {w: q}))
                    # inside the range the body is false
                    x = gnot(x)
                    if x is TRUE:
                        continue
                    base, used = self.connected([c for c in cube if c[0].op != "ex"], x)
                    if self.feasible(gand(base, x), 2) is None:
                        self.learn([(a, False)] + used)
                        return False
                break
        return True

    def connected(self, cube, g):
        """the literals that share symbols with g (the others are consistent among themselves already)"""
        fr = set(roots(g))
        rest = list(cube)
        used = []
        while True:
            more = [x for x in rest if roots(x[0]) & fr]
            if not more:
                break
            for x in more:
                fr |= roots(x[0])
            used += more
            ids = {id(x) for x in more}
            rest = [x for x in rest if id(x) not in ids]
        base = TRUE
        for a, b in used:
            base = gand(base, gatom(a) if b else gnot(gatom(a)))
        return base, used

    def within(self, a, b):
        """a <= b provable"""
        return core._lt_plain(b, a) is FALSE if isplain(a) and isplain(b) else False


_roots = {}
_reads = {}


def item_reads(x):
    """item(C, q) subterms with no bound variable in q"""
    if isinstance(x, V):
        out = []
        for m, cs in x.items:
            for t, e in m:
                out += item_reads(t)
        return out
    if isinstance(x, tuple):
        return [t for y in x for t in item_reads(y)]
    if not isinstance(x, T) or "item" not in x.ops:
        return []
    r = _reads.get(x)
    if r is None:
        r = []
        if x.op == "item" and "bv" not in x.ops:
            r.append(x)
        if x.op not in core.BINDERS:
            for y in x.args:
                r += item_reads(y)
        _reads[x] = r
    return r



def roots_of(a):
    return [t for m, cs in a.args[0].items for t, e in m]


def roots(x):
    """the uninterpreted symbols a term, value or guard is about"""
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= roots(y)
        return r
    if isinstance(x, (T, G)):
        k = (type(x), x.id)
        if k in _roots:
            return _roots[k]
        if isinstance(x, T):
            if x.op == "bv" or isconst_atom(x):
                r = frozenset()
            else:
                r = frozenset()
                kids = False
                for y in x.args:
                    if isinstance(y, (T, V, G, tuple)):
                        kids = True
                        r |= roots(y)
                if not kids:
                    r = frozenset((x,))
        else:
            r = frozenset() if x.var is None else roots(x.var) | roots(x.hi) | roots(x.lo)
        _roots[k] = r
        return r
    if isinstance(x, V):
        r = frozenset()
        for m, cs in x.items:
            for t, e in m:
                r |= roots(t)
            for c, g in cs:
                r |= roots(g)
        return r
    return frozenset()


def contains_term(v, t):
    if t.op in ("sym", "lc"):
        return t in v.free
    if t.op not in v.ops:
        return False
    seen = set()

    def w(x):
        if isinstance(x, T):
            if x is t:
                return True
            if x.id in seen:
                return False
            seen.add(x.id)
            return any(w(a) for a in x.args)
        if isinstance(x, V):
            return any(w(y) for m, cs in x.items for y, _ in m) or any(w(g) for m, cs in x.items for _, g in cs)
        if isinstance(x, G):
            if x.var is None or x.id in seen:
                return False
            seen.add(x.id)
            return w(x.var) or w(x.hi) or w(x.lo)
        if isinstance(x, tuple):
            return any(w(y) for y in x)
        return False
    return w(v)
