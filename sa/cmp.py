"""Comparison of two value graphs: EQ / DIFF (with a witness cube) / UNKNOWN."""
from fractions import Fraction
from .core import *
from . import core, norm
from .norm import *
from .theory import Theory, Budget, contains_term, roots_of

FUZZY = frozenset({"opaque", "rec", "work", "uniq", "mark", "undef", "slot", "without", "popped", "lc", "call?", "xrec", "mod"})
EQ = ("=", "")


def D(msg):
    return ("D", msg)


def U(msg):
    return ("U", msg)


def fuzzy(x):
    return bool(x.ops & FUZZY)


def weak(t):
    """conditions the theory reasons about incompletely: the pass a loop was left in"""
    if t.op in ("eq", "isa") and "inst" in t.ops:
        return True     # about the frozen contents of an object that is gone from the store
    if t.op in ("eq", "lt"):
        return "sel" in t.ops and any(x.op == "sel" and "ex" in x.args[2].ops for x in roots_of(t))
    return t.op == "ex" and "ex" in t.args[2].ops and any(x is not None and x.op == "ex" and "bv" in x.args[1].ops for x in gsupp(t.args[2]))


W_ = int(__import__("os").environ.get("CUBEW", 160))


def cube_text(c, n=int(__import__("os").environ.get("CUBE", 20))):
    out = []
    for a, b in c[:n]:
        s = show(a)
        if len(s) > W_:
            s = s[:W_] + "..."
        out.append(s if b else "not " + s)
    return " and ".join(out) or "always"


def vsupp(v):
    r = set()
    for m, cs in v.items:
        for _, g in cs:
            r |= gsupp(g)
    return r


class Cmp:
    def __init__(self, pkg=None):
        self.th = Theory(pkg)
        self.memo = {}
        self.depth = 0
        self.n = 0
        self.base = frozenset()     # conditions of the rejected inputs, already found equal on both sides

    # ------------------------------------------------------------- guards
    def g(self, a, b, ctx=TRUE):
        x = gand(gxor(a, b), ctx)
        if x is FALSE:
            return EQ
        k = ("g", a.id, b.id, ctx.id)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = EQ       # cyclic queries do not occur; guard against deep re-entry
            r = self._g(a, b, ctx, x)
            self.memo[k] = r
        return r

    def _g(self, a, b, ctx, x):
        self.enter()
        try:
            c = self.th.feasible(x)
            if c is None:
                return EQ
            # unify unmatched atoms
            note = None
            for _ in range(8):
                sa = gsupp(a) | gsupp(ctx)
                ua = [t for t in gsupp(a) - gsupp(b) if t is not None]
                ub = [t for t in gsupp(b) - gsupp(a) if t is not None]
                ua.sort(key=lambda t: t.id)
                ub.sort(key=lambda t: t.id)
                done = True
                for y in ub:
                    for z in ua:
                        if z.op != y.op:
                            continue
                        r = self.atom(z, y, ctx)
                        if r is EQ:
                            b = grename(b, y, gatom(z))
                            done = False
                            break
                        if note is None or (note[0] == "U" and r[0] == "D") and False:
                            note = r
                        if r[0] == "U":
                            note = r
                    if not done:
                        break
                if done:
                    break
                x = gand(gxor(a, b), ctx)
                if x is FALSE:
                    return EQ
                c = self.th.feasible(x)
                if c is None:
                    return EQ
                note = None
            if note is not None and note[0] == "U":
                return note
            un = (gsupp(a) ^ gsupp(b)) - {None}
            fz = [t for t in un if fuzzy(t)]
            if fz and not (note is not None and note[0] == "D") and not self.certain(x, gsupp(a) & gsupp(b)):
                return U("condition involves " + show(fz[0])[:120])
            return D("the condition differs when " + cube_text(c) + ("; " + note[1] if note else ""))
        except Budget:
            return U("budget")
        finally:
            self.depth -= 1

    def enter(self):
        self.depth += 1
        self.n += 1
        if self.depth > 60:
            self.depth -= 1
            raise Budget("depth")

    def atom(self, a, b, ctx):
        """are two guard atoms equivalent under ctx"""
        if a is b:
            return EQ
        if a.op == "eq":
            d1, d2 = a.args[0], b.args[0]
            for k in (1, -1):
                r = self.v(d1, scale(d2, Fraction(k)), ctx)
                if r is EQ:
                    return r
            return r if r[0] == "U" else D("condition %s against %s" % (show(a)[:160], show(b)[:160]))
        return self.t(a, b, ctx)

    # ------------------------------------------------------------- values
    def v(self, a, b, ctx=TRUE):
        if a is b or ctx is FALSE:
            return EQ
        k = ("v", a.id, b.id, ctx.id)
        r = self.memo.get(k)
        if r is None:
            try:
                self.enter()
                try:
                    r = self._v(a, b, ctx)
                finally:
                    self.depth -= 1
            except Budget:
                r = U("budget")
            except Blowup:
                r = U("size")
            self.memo[k] = r
        return r

    def terms(self, v):
        r = {}
        for m, cs in v.items:
            g = gany(g for _, g in cs)
            for t, _ in m:
                r[t] = gor(r[t], g) if t in r else g
        return r

    def _v(self, a, b, ctx):
        d = sub(a, b)
        if d is ZERO:
            return EQ
        # unify the atoms occurring on one side only
        results = {}
        for _ in range(10):
            ta, tb = self.terms(a), self.terms(b)
            ua = sorted((t for t in ta if t not in tb or gand(gand(ta[t], ctx), gnot(tb[t])) is not FALSE), key=lambda t: t.id)
            ub = sorted((t for t in tb if t not in ta or gand(gand(tb[t], ctx), gnot(ta[t])) is not FALSE), key=lambda t: t.id)
            hit = False
            for y in ub:
                for x in ua:
                    if x is y or not self.pairable(x, y):
                        continue
                    cc = gand(ctx, gand(ta[x], tb[y]))
                    if cc is FALSE:
                        continue
                    r = results.get((x, y))
                    if r is None:
                        r = self.t(x, y, cc)
                        results[(x, y)] = r
                    if r is EQ:
                        b2 = self.replace(b, y, x, cc)
                        if b2 is b:
                            continue
                        b = b2
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                break
        d = sub(a, b)
        if d is ZERO:
            return EQ
        worst = EQ
        for g, p in pieces(d):
            if p is ZERO:
                continue
            gg = gand(g, ctx)
            if gg is FALSE:
                continue
            c = self.th.feasible(gg)
            if c is None:
                continue
            if "sum" in p.ops:
                p2 = self.merge_sums(p, gg)
                if p2 is ZERO:
                    continue
                p = p2
            z = self.zero_under(p, gg)
            if z:
                continue
            if "mod" in p.ops:
                p = self.one_turn(p, gg)
                z = True if p is ZERO else self.zero_under(p, gg)
                if z:
                    continue
            if "floor" in p.ops and self.th.feasible(gand(gg, gnot(core.eq(p, ZERO)))) is None:
                continue
            r = self.mismatch(p, a, b, c, gg, results)
            if r is EQ:
                continue
            if z is None and r[0] == "D":
                r = U("too many cases: " + r[1])
            if r[0] == "D":
                worst = r if worst[0] != "U" else worst
            else:
                worst = r
        return worst

    def pairable(self, x, y):
        if x.op == y.op or {x.op, y.op} == {"s", "str"}:
            return True
        return (x.op in CONT and y.op in CONTX) or (y.op in CONT and x.op in CONTX)

    def replace(self, v, y, x, cc):
        """replace term y by x in v (only where the replacement was justified)"""
        out = ZERO
        ch = False
        for m, cs in v.items:
            if any(t is y for t, _ in m):
                m2 = core._monomul(tuple((t, e) for t, e in m if t is not y), tuple((x, e) for t, e in m if t is y))
                for c, g in cs:
                    # the context of the justification covers g (cc = ctx & occurrence guards)
                    gi = gand(g, cc)
                    go = gand(g, gnot(cc))
                    if gi is not FALSE:
                        ch = True
                        out = add(out, core._mkv({m2: {c: gi}}))
                    if go is not FALSE:
                        out = add(out, core._mkv({m: {c: go}}))
            else:
                out = add(out, core._mkv({m: dict(cs)}))
        return out if ch else v

    def one_turn(self, p, g):
        """remainders of values that are less than one divisor away"""
        for t in [t for m, cs in p.items for t, e in m if t.op == "mod"]:
            x, q = asV(t.args[0]), asV(t.args[1])
            for k in (1, -1):
                r = sub(x, scale(q, k))
                if self.th.feasible(gand(g, lt(r, ZERO))) is None and \
                        self.th.feasible(gand(g, gnot(lt(r, q)))) is None:
                    out = ZERO
                    for m, cs in p.items:
                        for c, gc in cs:
                            y = core._mkv({tuple(z for z in m if z[0] is not t): {c: gc}})
                            for z, e in m:
                                if z is t:
                                    y = mul(y, power(r, e))
                            out = add(out, y)
                    p = out
                    break
        return p

    def zero_under(self, p, g):
        """p == 0 is implied by equality literals of every cube of g"""
        forced = [(a, True) for a in gsupp(g) if a is not None and a.op == "eq" and gcof(g, a, False) is FALSE]
        if forced and self.zero_cube(p, forced):
            return True
        n = 0
        for cube in self.cubes(g):
            n += 1
            if n > 24:
                return self.nonzero_cube(p, g)
            if not self.zero_cube(p, cube):
                # is that cube itself consistent?
                gg = TRUE
                for a, b in cube:
                    gg = gand(gg, gatom(a) if b else gnot(gatom(a)))
                if self.th.feasible(gg) is not None:
                    return False
        return True

    def nonzero_cube(self, p, g):
        """too many cubes to look at all: False when a general one shows a difference"""
        n = 0
        for cube in self.cubes(g, ((False, 1), (True, 0))):
            n += 1
            if n > 600:
                return None
            if not self.zero_cube(p, cube):
                gg = TRUE
                for a, b in cube:
                    gg = gand(gg, gatom(a) if b else gnot(gatom(a)))
                if self.th.feasible(gg) is not None:
                    return False
        return True

    def cubes(self, g, order=((True, 0), (False, 1))):
        def rec(x, acc):
            if x is FALSE:
                return
            if x is TRUE:
                yield list(acc)
                return
            for b, k in order:
                nx = (x.hi, x.lo)[k]
                if nx is not FALSE:
                    acc.append((x.var, b))
                    yield from rec(nx, acc)
                    acc.pop()
        yield from rec(g, [])

    def zero_cube(self, p, cube):
        eqs = [a.args[0] for a, b in cube if b and a.op == "eq" and isplain(a.args[0])]
        s = {}
        for d in eqs:
            if s:
                d = subst(d, s)
                if not isplain(d):
                    continue
            for pref in (True, False):
                best = None
                for mono, cs in d.items:
                    if len(mono) == 1 and mono[0][1] == 1 and not isconst_atom(mono[0][0]):
                        t = mono[0][0]
                        if pref and t not in {x for m, _ in p.items for x, _ in m}:
                            continue
                        rest = scale(sub(d, scale(vt(t), cs[0][0])), -1 / cs[0][0])
                        if not contains_term(rest, t):
                            best = (t, rest)
                            break
                if best:
                    s = {k: subst(v, {best[0]: best[1]}) for k, v in s.items()}
                    s[best[0]] = best[1]
                    break
        if not s:
            return False
        gs = TRUE
        for a, b in cube:
            gs = gand(gs, gatom(a) if b else gnot(gatom(a)))
        q = subst(p, s)
        if q is ZERO or "sum_" in q.ops and core.clear_sums(q) is ZERO:
            return True
        for g, x in pieces(q):
            if x is not ZERO and gand(g, gs) is not FALSE:
                return False
        return True

    def merge_sums(self, p, ctx):
        """p plain; combine linear occurrences of sums over one domain and test the body for zero"""
        groups = {}
        rest = ZERO
        for m, cs in p.items:
            c = cs[0][0]
            sums = [t for t, e in m if t.op == "sum"]
            if len(sums) == 1 and dict(m)[sums[0]] == 1:
                t = sums[0]
                fac = core._mkv({tuple((x, e) for x, e in m if x is not t): {c: TRUE}})
                groups.setdefault(t.args[1], []).append((t, fac))
            else:
                rest = add(rest, core._mkv({m: {c: TRUE}}))
        out = rest
        his = list(groups)
        # identify domains that agree under ctx
        for i in range(len(his)):
            for j in range(i):
                if his[j] in groups and his[i] in groups and self.v(his[j], his[i], ctx) is EQ:
                    groups[his[j]].extend(groups.pop(his[i]))
        for hi, ts in groups.items():
            y = fresh("i")
            core.idx_hi[y] = hi
            body = ZERO
            for t, fac in ts:
                b, g = open_(t.args[0], vt(y), t.args[2], t.args[3])
                body = add(body, mul(fac, guarded(g, b)))
            if body is ZERO:
                continue
            if self.v(body, ZERO, ctx) is EQ:
                continue
            for t, fac in ts:
                out = add(out, mul(fac, vt(t)))
        return out

    def mismatch(self, p, a, b, cube, g, results):
        la = [t for m, cs in p.items for t, e in m]
        ta, tb = self.terms(a), self.terms(b)
        if "inf" in a.ops and "inf" in b.ops:
            x = core._infinite(self.under(a, g))
            if x and x == core._infinite(self.under(b, g)):
                return EQ
        if "sum_" in a.ops or "sum_" in b.ops:
            x = core.clear_sums(self.under(sub(a, b), g))
            if x is ZERO:
                return EQ
        if len(pieces(a)) > 1 or len(pieces(b)) > 1:
            va, vb = self.under(a, g), self.under(b, g)
            if len(pieces(va)) == 1 and len(pieces(vb)) == 1:
                ta, tb = self.terms(va), self.terms(vb)
        xs = [t for t in la if t in ta and t not in tb]
        ys = [t for t in la if t in tb and t not in ta]
        note, same = None, []
        for x in xs:
            for y in ys:
                r = results.get((x, y))
                if r is not EQ and self.pairable(x, y):
                    # (an earlier answer may be about a wider context)
                    r = self.t(x, y, g)
                    if r is EQ:
                        # justified for this piece only
                        q = self.replace(p, x, y, TRUE)
                        if q is ZERO or "sum_" in q.ops and core.clear_sums(q) is ZERO:
                            return EQ
                        same.append((x, y, q))
                        continue
                if r is not None:
                    if r[0] == "U":
                        return r
                    note = r
        if len(same) > 1:
            q = p
            for x, y, _ in same:
                q = self.replace(q, x, y, TRUE)
            if q is ZERO or "sum_" in q.ops and core.clear_sums(q) is ZERO:
                return EQ
        fz = [t for t in set(xs + ys + la) if fuzzy(t)]
        if fz and note is None:
            return U("value involves " + show(fz[0])[:120])
        if note is not None and note[0] == "D":
            return note
        if "sum" in p.ops and len([t for t in la if t.op == "sum"]) > 0:
            r = self.sum_witness(p, g)
            if r is not None:
                return r
        if note is None and not self.certain(g, vsupp(a) & vsupp(b)):
            return U("the condition involves a value that is not modelled")
        # the two values under this cube
        va, vb = self.under(a, g), self.under(b, g)
        return D("value %s instead of %s when %s" % (showv(va)[:220], showv(vb)[:220], cube_text(cube)))

    def certain(self, g, common):
        """does g stay possible whatever the atoms without a precise model are (other than those of both sides)"""
        for t in gsupp(g):
            if t is not None and t not in common and t not in self.base and (fuzzy(t) or weak(t)):
                g = gand(gcof(g, t, True), gcof(g, t, False))
                if g is FALSE:
                    return False
        return self.th.feasible(g) is not None

    def sum_witness(self, p, g):
        return None

    def under(self, v, g):
        ps = [(x, q) for x, q in pieces(v) if gand(x, g) is not FALSE]
        return ps[0][1] if len(ps) == 1 else v

    # ------------------------------------------------------------- terms
    def t(self, a, b, ctx=TRUE):
        if a is b or ctx is FALSE:
            return EQ
        k = ("t", a.id, b.id, ctx.id)
        r = self.memo.get(k)
        if r is None:
            try:
                self.enter()
                try:
                    r = self._t(a, b, ctx)
                finally:
                    self.depth -= 1
            except Budget:
                r = U("budget")
            except Blowup:
                r = U("size")
            self.memo[k] = r
        return r

    def bad(self, a, b, msg=""):
        if fuzzy(a) or fuzzy(b):
            return U("%s against %s" % (show(a)[:120], show(b)[:120]))
        return D(msg or "%s instead of %s" % (show(a)[:240], show(b)[:240]))

    def _t(self, a, b, ctx):
        o = a.op
        if a.op != b.op:
            if {a.op, b.op} == {"s", "str"}:
                return self.segs(*[x.args if x.op == "str" else (("e", vt(x), TRUE),) if x.args[0] else () for x in (a, b)],
                                 ctx, *((a, b) if a.op == "str" else (b, a)))
            for x, y in ((a, b), (b, a)):
                if x.op == "map" and y.op in CONTX and y.op != "map":
                    return self.map_vs(x, y, ctx)
                if x.op == "seq" and x.args and y.op in CONTX:
                    z = self.prune(x.args, ctx)
                    if len(z) == 1 and z[0][0] == "x" and gand(ctx, gnot(z[0][2])) is FALSE:
                        return self.v(z[0][1], vt(y), ctx)
                    if any(q[0] == "x" for q in z):
                        r = (z, (("x", vt(y), TRUE),))
                        return self.segs(*(r if x is a else r[::-1]), ctx, a, b)
            return self.bad(a, b)
        if o == "seq":
            return self.segs(a.args, b.args, ctx, a, b)
        if o == "str":
            return self.segs(a.args, b.args, ctx, a, b)
        if o == "popped":
            r = self.v(asV(a.args[0]), asV(b.args[0]), ctx)
            return r if r is not EQ else self.v(asV(a.args[1]), asV(b.args[1]), ctx)
        if o == "ex":
            return self.binder(a, b, ctx, lambda y, x1, x2, c: self.g(x1[0], x2[0], c))
        if o == "sum":
            return self.binder(a, b, ctx, lambda y, x1, x2, c: self.v(guarded(x1[1], x1[0]), guarded(x2[1], x2[0]), c))
        if o == "sel":
            def f(y, x1, x2, c):
                r = self.g(x1[0], x2[0], c)
                if r is not EQ:
                    return r
                return self.v(x1[1], x2[1], gand(c, x1[0]))
            return self.binder(a, b, ctx, f)
        if o == "maxf":
            r = self.v(a.args[4], b.args[4], ctx)
            if r is not EQ:
                return r

            def f(y, x1, x2, c):
                r = self.g(x1[1], x2[1], c)
                if r is not EQ:
                    return r
                return self.v(x1[0], x2[0], gand(c, x1[1]))
            return self.binder(a, b, ctx, f, (2, 3))
        if o == "map":
            y = fresh("k")
            p1, v1 = open_(a.args[0], vt(y), a.args[1], a.args[2])
            p2, v2 = open_(b.args[0], vt(y), b.args[1], b.args[2])
            r = self.g(p1, p2, ctx)
            if r is not EQ:
                return self.pre(r, "for some key: presence: ")
            return self.pre(self.v(v1, v2, gand(ctx, p1)), "for some key: ")
        if o == "rec":
            return self.rec(a, b, ctx)
        if o == "work":
            r = self.v(a.args[1], b.args[1], ctx)
            if r is not EQ:
                return r
            y = fresh("w")
            s1, = open_(a.args[0], vt(y), a.args[2])
            s2, = open_(b.args[0], vt(y), b.args[2])
            return self.segs(s1, s2, ctx, a, b)
        if o == "inst":
            if a.args[0] != b.args[0]:
                return self.bad(a, b)
            f1, f2 = dict(a.args[1]), dict(b.args[1])
            if set(f1) != set(f2):
                return U("fields of %s differ" % a.args[0])
            for n in f1:
                r = self.any(f1[n], f2[n], ctx)
                if r is not EQ:
                    return self.pre(r, "field %s: " % n.split("__")[-1])
            return EQ
        if o in ("s", "none", "true", "false", "param", "sym", "lc", "enum", "cls", "fn", "extname", "obj", "exc"):
            return self.bad(a, b)
        if len(a.args) != len(b.args):
            return self.bad(a, b)
        for x, y in zip(a.args, b.args):
            r = self.any(x, y, ctx)
            if r is not EQ:
                if r[0] == "P":
                    return self.bad(a, b)
                return r if o in ("tup", "New", "fmt", "rev", "slice") or r[0] == "U" else D("%s instead of %s" % (show(a)[:240], show(b)[:240]))
        return EQ

    def pre(self, r, s):
        return r if r is EQ or r[0] == "U" else (r[0], s + r[1])

    def any(self, x, y, ctx):
        if x is y:
            return EQ
        if isinstance(x, T) and isinstance(y, T):
            return self.t(x, y, ctx)
        if isinstance(x, (V, T)) and isinstance(y, (V, T)):
            return self.v(asV(x), asV(y), ctx)
        if isinstance(x, G) and isinstance(y, G):
            return self.g(x, y, ctx)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for p, q in zip(x, y):
                r = self.any(p, q, ctx)
                if r is not EQ:
                    return r
            return EQ
        return EQ if x == y else ("P", "")

    def binder(self, a, b, ctx, f, idx=None):
        r = self.v(a.args[1], b.args[1], ctx)
        if r is not EQ:
            if r[0] == "D":
                return self.bad(a, b, "range of a loop/aggregate: " + r[1])
            return r
        y = fresh("i")
        core.idx_hi[y] = a.args[1]
        n = 2
        x1 = open_(a.args[0], vt(y), *[z for z in a.args[2:] if isinstance(z, (V, G))])
        x2 = open_(b.args[0], vt(y), *[z for z in b.args[2:] if isinstance(z, (V, G))])
        return f(y, x1, x2, ctx)

    def map_vs(self, m, o, ctx):
        y = fresh("k")
        p1, v1 = open_(m.args[0], vt(y), m.args[1], m.args[2])
        r = self.g(p1, contains(vt(o), vt(y)), ctx)
        if r is not EQ:
            return self.pre(r, "for some key: presence: ")
        return self.pre(self.v(v1, get(vt(o), vt(y)), gand(ctx, p1)), "for some key: ")

    def rec(self, a, b, ctx):
        h1, hi1, in1, n1, u1 = a.args
        h2, hi2, in2, n2, u2 = b.args
        if len(u1) != len(u2):
            return U("recurrences of different shape")
        r = self.v(hi1, hi2, ctx)
        if r is not EQ:
            return U("recurrences over different ranges")
        perm = self.match_slots(in1, n1, u1, in2, n2, u2)
        if perm is None:
            return U("recurrences of different shape")
        y = fresh("i")
        core.idx_hi[y] = hi1
        b1, = open_(h1, vt(y), u1)
        b2, = open_(h2, vt(y), u2)
        ren = {}
        for i, j in enumerate(perm):
            if i != j:
                ren[mk("slot", y, j)] = vt(mk("slot", y, 1000 + i))
        if ren:
            b2 = subst(b2, ren)
            b2 = subst(b2, {mk("slot", y, 1000 + i): vt(mk("slot", y, i)) for i in range(len(perm))})
        for i, j in enumerate(perm):
            r = self.v(in1[i], in2[j], ctx)
            if r is not EQ:
                return U("recurrences with different start values")
        for i, j in enumerate(perm):
            r = self.v(b1[i], b2[j], ctx)
            if r is not EQ:
                return U("recurrences differ: " + r[1])
        return EQ

    def match_slots(self, in1, n1, u1, in2, n2, u2):
        if len(in1) == 1:
            return [0]
        if n1 == n2:
            return list(range(len(in1)))
        return None

    # ------------------------------------------------------------- sequences
    def prune(self, segs, ctx):
        """segments that can be present in the context"""
        if ctx is TRUE:
            return segs
        out = []
        for x in segs:
            if x[0] in ("e", "x") and x[2] is not TRUE:
                g = gand(ctx, x[2])
                if g is FALSE or self.th.feasible(g) is None:
                    continue
                if g is ctx:
                    x = (x[0], x[1], TRUE)
            elif x[0] == "l" and not self.some(x, ctx):
                continue
            out.append(x)
        return tuple(out)

    def some(self, x, ctx):
        """can the loop part x contribute an element in the context"""
        z = fresh("i")
        core.idx_hi[z] = x[2]
        b, = open_(x[1], vt(z), x[3])
        c = gand(ctx, lt(ZERO, x[2]))
        for y in b:
            if y[0] == "l":
                if self.some(y, c):
                    return True
            else:
                g = gand(c, y[2])
                if g is not FALSE and self.th.feasible(g) is not None:
                    return True
        return False

    def outer(self, x):
        """literals in the guards of a loop part that do not depend on its position"""
        out = []

        def walk(x, inner):
            z = fresh("i")
            inner = inner | {z}
            for y in open_(x[1], vt(z), x[3])[0]:
                if y[0] == "l":
                    walk(y, inner)
                else:
                    stack, seen = [y[2]], set()
                    while stack:
                        g = stack.pop()
                        if g.var is None or g.id in seen:
                            continue
                        seen.add(g.id)
                        stack += [g.hi, g.lo]
                        if g.var not in out and not (inner & g.var.free):
                            out.append(g.var)
        walk(x, frozenset())
        return out

    def text(self, segs, ctx):
        """constant pieces that meet in the context joined into one"""
        out = []
        for x in segs:
            if x[0] == "e" and not isplain(x[1]):
                ps = [p for g, p in pieces(x[1]) if gand(ctx, g) is not FALSE and self.th.feasible(gand(ctx, g)) is not None]
                if len(ps) == 1:
                    x = ("e", ps[0], x[2])
            if x[0] == "e" and out and out[-1][0] == "e" and x[2] is out[-1][2]:
                p, q = asstr(out[-1][1]), asstr(x[1])
                if p is not None and q is not None:
                    out[-1] = ("e", string(p + q), x[2])
                    continue
            out.append(x)
        return tuple(out)

    def peel(self, s1, s2, ctx):
        """a loop that runs a few passes longer than its counterpart: its first and last passes written out"""
        i = next((k for k, x in enumerate(s1) if x[0] == "l"), None)
        j = next((k for k, x in enumerate(s2) if x[0] == "l"), None)
        if i is None or j is None:
            return None
        x, y = s1[i], s2[j]
        d = asnum(sub(x[2], y[2]))
        if d is None or d == 0 or abs(d) > 3 or d.denominator != 1:
            return None
        lead = s2[:j] if d > 0 else s1[:i]
        s, k, l, hi = (s1, i, x, y[2]) if d > 0 else (s2, j, y, x[2])
        for f in range(int(abs(d)) + 1):
            front, back = (), ()
            for n in range(f):
                b, = open_(l[1], num(n), l[3])
                front += tuple(b)
            for n in range(f, int(abs(d))):
                b, = open_(l[1], add(hi, num(n)), l[3])
                back += tuple(b)
            mid = l[3]
            if f:
                z = fresh("i")
                b, = open_(l[1], add(vt(z), num(f)), l[3])
                mid = seg_loop(z, hi, b)
            else:
                mid = (("l", l[1], hi, l[3]),)
            front = self.prune(s[:k] + front, ctx)
            if len(self.text(front, ctx)) == len(self.text(self.prune(lead, ctx), ctx)):
                new = front + tuple(mid) + back + s[k + 1:]
                return (new, s2) if d > 0 else (s1, new)
        return None

    def differ_segs(self, s1, s2, ctx, a, b):
        if a is not None and a.op == "str":
            if all(x[0] == "e" and x[2] is TRUE for x in s1 + s2):
                if self.th.feasible(ctx) is None:
                    return EQ
                return self.bad(a, b, "text %s instead of %s" % (showa(s1)[:240], showa(s2)[:240]))
            return self.unrolled(s1, s2, ctx, a, b)
        return self.shape(s1, s2, ctx)

    def unrolled(self, s1, s2, ctx, a, b):
        """texts of different make-up: a difference only when it shows for a few passes"""
        his = [x[2] for x in s1 + s2 if x[0] == "l"]
        if not his:
            return U("texts of different make-up")
        for k in range(3):
            c = gand(ctx, eq(his[0], num(k)))
            if c is FALSE or self.th.feasible(c) is None:
                continue
            t1, t2 = self.expand(s1, c), self.expand(s2, c)
            if t1 is None or t2 is None:
                continue
            r = self.segs(t1, t2, c, a, b)
            if r is not EQ and r[0] == "D":
                return self.pre(r, "%d passes: " % k)
        return U("texts of different make-up")

    def expand(self, segs, ctx, partial=False):
        """the loops written out where the context fixes their number of passes"""
        out = ()
        for x in segs:
            if x[0] != "l":
                out += (x,)
                continue
            for k in range(5):
                g = eq(x[2], num(k))
                if gand(ctx, g) is not FALSE and self.th.feasible(gand(ctx, gnot(g))) is None:
                    break
            else:
                g = gand(ctx, lt(ZERO, x[2]))
                if g is not FALSE and self.th.feasible(g) is not None:
                    if not partial:
                        return None
                    out += (x,)
                    continue
                k = 0
            for i in range(k):
                b, = open_(x[1], num(i), x[3])
                out += tuple(b)
        return out

    def shape(self, s1, s2, ctx):
        """sequences of different make-up: a difference only when the length or the first elements differ"""
        n1, n2 = seq_len(s1), seq_len(s2)
        r = self.v(n1, n2, ctx)
        if r is not EQ:
            return self.pre(r, "length: ")
        for k in range(2):
            c = gand(ctx, lt(num(k), n1))
            if c is FALSE or self.th.feasible(c) is None:
                break
            x, y = seq_item(s1, num(k)), seq_item(s2, num(k))
            if x is None or y is None:
                break
            r = self.v(x, y, c)
            if r is not EQ:
                return self.pre(r, "element %d: " % k)
        return U("sequences of different make-up")

    def one(self, x, ctx):
        """a loop that keeps exactly one element is that element"""
        if x[0] != "l" or len(x[3]) != 1 or x[3][0][0] != "e":
            return x
        if not norm.has_bv(x[3][0][2], x[1]):
            g = x[3][0][2]
            if g is not TRUE and gand(ctx, g) is ctx:
                y = fresh("i")
                core.idx_hi[y] = x[2]
                e, = open_(x[1], vt(y), x[3][0])
                r = norm.seg_loop(y, x[2], (("e", e[1], TRUE),))
                if len(r) == 1:
                    return r[0]
            return x
        ne = gnot(eq(norm.seq_len((x,)), ONE))
        if self.th.feasible(gand(ctx, ne)) is not None:
            return x
        y = fresh("i")
        core.idx_hi[y] = x[2]
        e, = open_(x[1], vt(y), x[3][0])
        return ("e", norm.SEL(y, x[2], e[2], e[1]), TRUE)

    def recut(self, s1, s2, ctx, a, b, depth):
        """one loop against several: cut the longer one where the shorter one ends"""
        k = next((i for i, (x, y) in enumerate(zip(s1, s2)) if x != y), None)
        if k is None or s1[k][0] != "l" or s2[k][0] != "l" or s1[k][2] is s2[k][2]:
            return None
        n, m = s1[k][2], s2[k][2]
        cases = []
        for c in (gand(ctx, lt(n, m)), gand(ctx, gnot(lt(n, m)))):
            cases += [x for x in (gand(c, lt(ZERO, n)), gand(c, gnot(lt(ZERO, n)))) if x is not FALSE]
        cases = [x for y in cases for x in (gand(y, lt(ZERO, m)), gand(y, gnot(lt(ZERO, m))))
                 if x is not FALSE and self.th.feasible(x) is not None]
        if len(cases) > 1:
            for c in cases:
                r = self.segs(s1, s2, c, a, b, depth + 1)
                if r is not EQ:
                    return r
            return EQ
        if self.th.feasible(gand(ctx, gnot(lt(ZERO, n)))) is not None or self.th.feasible(gand(ctx, gnot(lt(ZERO, m)))) is not None:
            drop = [tuple(x for i, x in enumerate(s) if i != k or self.th.feasible(gand(ctx, lt(ZERO, x[2]))) is not None)
                    for s in (s1, s2)]
            if drop != [s1, s2]:
                return self.segs(drop[0], drop[1], ctx, a, b, depth + 1)
            return None
        short, long_ = (s1, s2) if self.th.feasible(gand(ctx, lt(m, n))) is None else (s2, s1)
        x, y = short[k], long_[k]
        if self.th.feasible(gand(ctx, gnot(core.eq(x[2], y[2])))) is None:
            return None
        z = fresh("i")
        core.idx_hi[z] = rest = sub(y[2], x[2])
        body, = open_(y[1], add(x[2], vt(z)), y[3])
        new = long_[:k] + (("l", y[1], x[2], y[3]),) + tuple(seg_loop(z, rest, body)) + long_[k + 1:]
        return self.segs(short, new, ctx, a, b, depth + 1) if long_ is s2 else self.segs(new, short, ctx, a, b, depth + 1)

    def segs(self, s1, s2, ctx, a=None, b=None, depth=0):
        s1, s2 = self.prune(s1, ctx), self.prune(s2, ctx)
        if a is not None and a.op == "str":
            s1, s2 = self.text(s1, ctx), self.text(s2, ctx)
        if [x[0] for x in s1] != [x[0] for x in s2]:
            s1, s2 = tuple(self.one(x, ctx) for x in s1), tuple(self.one(x, ctx) for x in s2)
        if depth < 8 and (len(s1) != len(s2) or any(x[0] != y[0] or x[0] != "l" and x[2] is not y[2] and self.g(x[2], y[2], ctx) is not EQ
                                                    for x, y in zip(s1, s2))):
            for x in s1 + s2:
                if x[0] in ("e", "x") and x[2] is not TRUE and gand(ctx, x[2]) is not ctx:
                    for c in (gand(ctx, x[2]), gand(ctx, gnot(x[2]))):
                        if c is not FALSE and self.th.feasible(c) is not None:
                            r = self.segs(s1, s2, c, a, b, depth + 1)
                            if r is not EQ:
                                return r
                    return EQ
            for x in s1 + s2:
                if x[0] == "l":
                    for t in self.outer(x):
                        c, d = gand(ctx, gatom(t)), gand(ctx, gnot(gatom(t)))
                        if c is not ctx and d is not ctx and self.th.feasible(c) is not None and self.th.feasible(d) is not None:
                            r = self.segs(s1, s2, c, a, b, depth + 1)
                            if r is not EQ:
                                return r
                            return self.segs(s1, s2, d, a, b, depth + 1)
        if len(s1) != len(s2):
            p = self.peel(s1, s2, ctx)
            if p is not None:
                return self.segs(p[0], p[1], ctx, a, b, depth + 1)
            if depth < 8 and any(x[0] == "l" for x in s1 + s2):
                t1, t2 = self.expand(s1, ctx, True), self.expand(s2, ctx, True)
                if t1 != s1 or t2 != s2:
                    return self.segs(t1, t2, ctx, a, b, depth + 1)
            if depth < 12:
                r = self.recut(s1, s2, ctx, a, b, depth)
                if r is not None:
                    return r
            return self.differ_segs(s1, s2, ctx, a, b)
        for x, y in zip(s1, s2):
            if x == y:
                continue
            if x[0] != y[0]:
                return self.differ_segs(s1, s2, ctx, a, b)
            if x[0] in ("e", "x"):
                r = self.g(x[2], y[2], ctx)
                if r is not EQ:
                    return self.pre(r, "presence of an element: ")
                r = self.v(x[1], y[1], gand(ctx, x[2]))
                if r is not EQ:
                    return r
            else:
                z = fresh("i")
                core.idx_hi[z] = x[2]
                b1, = open_(x[1], vt(z), x[3])
                b2, = open_(y[1], vt(z), y[3])
                at = gand(ctx, gor(filled(b1, {z}), filled(b2, {z})))
                r = self.v(x[2], y[2], at)
                if r is not EQ:
                    return self.pre(r, "number of iterations: ")
                some = gand(at, lt(ZERO, x[2]))
                if some is FALSE or self.th.feasible(some) is None:
                    continue
                r = self.segs(b1, b2, some, a, b)
                if r is not EQ:
                    return r
        return EQ


def filled(segs, own):
    """when the segments may have an element, whatever the indices `own` are"""
    r = FALSE
    for s in segs:
        if s[0] == "l":
            z = fresh("i")
            b, = open_(s[1], vt(z), s[3])
            g = filled(b, own | {z})
        else:
            g = s[2]
            for t in gsupp(g):
                if t is not None and own & t.free:
                    g = gor(gcof(g, t, True), gcof(g, t, False))
        r = gor(r, g)
        if r is TRUE:
            break
    return r


CONT = {"map", "seq"}
CONTX = {"map", "seq", "attr", "get", "param", "item", "call", "sel", "dict", "ext"}


def grename(g, t, by):
    memo = {}

    def r(x):
        if x.var is None:
            return x
        y = memo.get(x.id)
        if y is None:
            y = gite(by if x.var is t else gatom(x.var), r(x.hi), r(x.lo))
            memo[x.id] = y
        return y
    return r(g)
