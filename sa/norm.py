"""Smart constructors: heap reads, sequences, aggregates (sum / exists / select / max)."""
from fractions import Fraction
from .core import *
from . import core

ptype = {}          # T -> type descriptor (filled by the interpreter)


def typeof(t):
    return ptype.get(t)


def is_dict(t):
    ty = ptype.get(t)
    if ty is not None:
        return ty[0] == "dict"
    return t.op in ("map", "ref")


# ------------------------------------------------------------- None handling
def drop_none(v):
    """value used where None would crash: the None pieces are unreachable"""
    ps = pieces(v)
    if len(ps) == 1:
        return v
    keep = [(g, p) for g, p in ps if p is not NONE and not (asT(p) is not None and asT(p).op == "undef")]
    if len(keep) == len(ps) or not keep:
        return v
    r = keep[-1][1]
    for g, p in reversed(keep[:-1]):
        r = vite(g, p, r)
    return r


# ------------------------------------------------------------- heap reads
def attr_t(t, name):
    if t.op == "sel":
        s = fresh("b")
        hi, g, v = t.args[1], *open_(t.args[0], vt(s), t.args[2], t.args[3])
        return SEL(s, hi, g, attr(v, name))
    if t.op == "New":
        r = new_attr[0](t, name)
        if r is not None:
            return r
    if t.op == "inst":
        r = dict(t.args[1]).get(name)
        if isinstance(r, V):
            return r
    if t.op == "rec":
        u, v0, last, some = last_pass(t)
        if u is not None and NONE is not u and all(asT(p) is not None and asT(p).op in ("New", "inst") for _, p in pieces(u)):
            a = attr(u, name)
            if "slot" not in a.ops:
                a = last(a)
                return a if v0 is NONE else vite(some, a, attr(v0, name))
    if t.op == "item" and (name, 1) in ranked:
        d = asT(t.args[0]) if isinstance(t.args[0], V) else t.args[0]
        if d is not None and d.op == "attr" and (name, d.args[1]) in ranked:
            return add(asV(t.args[1]), ONE)
    return vt(mk("attr", t, name))


def last_pass(t):
    """a value computed by repetition: (value after pass s, initial value, value -> value at the last pass, some pass)"""
    s = fresh("b")
    hi, inits, n = t.args[1], t.args[2], t.args[3]
    u, = open_(t.args[0], vt(s), t.args[4])
    if not isinstance(u, tuple) or not isinstance(hi, V):
        return None, None, None, None
    return u[n], inits[n], lambda v: subst(v, {s: sub(hi, ONE)}), gnot(lt(hi, ONE))


ranked = set()      # (id attribute, list attribute): the element at position k of that list has id k + 1
new_attr = [lambda t, n: None]


def attr(v, name):
    def f(p):
        t = asT(p)
        if t is None:
            t = mk("val", p)
        return attr_t(t, name)

    return vmap(f, drop_none(v))


post_hook["attr"] = lambda b, n: attr(b if isinstance(b, V) else vt(b), n)


def asV(x):
    return x if isinstance(x, V) else vt(x)


def get(d, k):
    def f(p, q):
        t = asT(p)
        if t is None:
            t = mk("val", p)
        if t.op == "map":
            return map_get(t, q)
        if t.op == "seq":
            return item(p, q)
        if t.op == "sel":
            s = fresh("b")
            hi, g, v = t.args[1], *open_(t.args[0], vt(s), t.args[2], t.args[3])
            return SEL(s, hi, g, get(v, q))
        return vt(mk("get", t, q))

    return vmap(f, drop_none(d), k)


post_hook["get"] = lambda b, k: get(asV(b), asV(k))


def map_get(t, k):
    # ("map", h, present, value)
    g, v = open_(t.args[0], k, t.args[1], t.args[2])
    return v


def only_key(t):
    """the key of a mapping that has exactly one"""
    y = fresh("k")
    p, _ = open_(t.args[0], vt(y), t.args[1], t.args[2])
    return next((c for x, c, a in onepoint(y, ZERO, p) if x is y and gatom(a) is p), None)


def one_key(t):
    """(key, condition) of a mapping that has at most one"""
    y = fresh("k")
    p, _ = open_(t.args[0], vt(y), t.args[1], t.args[2])
    for x, c, a in onepoint(y, ZERO, p):
        if x is y and gand(p, gnot(gatom(a))) is FALSE:
            return c, open_(t.args[0], c, t.args[1], t.args[2])[0]
    return None


def item(c, i):
    """element of a sequence / i-th key of a mapping"""
    def f(p, q):
        t = asT(p)
        if t is None:
            t = mk("val", p)
        n = asnum(q)
        if t.op == "seq":
            segs = t.args
            r = seq_item(segs, q)
            if r is not None:
                return r
        if t.op == "map" and (n == 0 or n == -1):
            k = only_key(t)
            if k is not None:
                return k
        if t.op in ("tup",) and n is not None and n.denominator == 1 and -len(t.args) <= n < len(t.args):
            return t.args[int(n)]
        if t.op == "slice":
            base, lo = t.args[0], t.args[1]
            if not (n is not None and n < 0):
                return item(vt(base), add(q, lo))
            if t.args[2] is NONE:
                return item(vt(base), q)
        if t.op == "rev":
            if n is not None and n < 0:
                return item(vt(t.args[0]), sub(neg(q), ONE))
            return item(vt(t.args[0]), sub(sub(length(vt(t.args[0])), ONE), q))
        if t.op == "range":
            lo, hi, st = t.args
            if n is not None and n < 0:
                return add(lo, mul(st, add(length(p), q)))
            return add(lo, mul(st, q))
        if n is not None and n < 0:
            q = add(length(p), q)
        if t.op == "sel":
            s = fresh("b")
            hi, g, v = t.args[1], *open_(t.args[0], vt(s), t.args[2], t.args[3])
            return SEL(s, hi, g, item(v, q))
        y = asT(q)
        if y is not None and y.op == "sel":
            s = fresh("b")
            core.idx_hi[s] = y.args[1]
            g, v = open_(y.args[0], vt(s), y.args[2], y.args[3])
            return SEL(s, y.args[1], g, item(p, v))
        return vt(mk("item", t, q))

    return vmap(f, drop_none(c), i)


post_hook["item"] = lambda b, k: item(asV(b), asV(k))


def range_span(t):
    """the number of values of a range, or anything below zero for none"""
    lo, hi, st = t.args
    k = asnum(sub(hi, lo))
    s = asnum(st)
    if k is not None and s:
        return num(max(0, -((-k) // s)))
    if st is ONE:
        return sub(hi, lo)
    if s == -1:
        return sub(lo, hi)
    return vt(mk("ext", "rangelen", (lo, hi, st)))


def plain_items(segs):
    """the single elements of a sequence whose loops make a known, small number of passes"""
    out = ()
    for s in segs:
        if s[0] == "e":
            out += (s,)
            continue
        n = asnum(s[2]) if s[0] == "l" else None
        if n is None or not 0 <= n <= 8 or n.denominator != 1:
            return None
        for k in range(int(n)):
            b = plain_items(open_(s[1], num(k), s[3])[0])
            if b is None:
                return None
            out += b
    return out


def length(c):
    def f(p):
        t = asT(p)
        if t is None:
            t = mk("val", p)
        if t.op == "seq":
            return seq_len(t.args)
        if t.op == "map" and (t.args[1] is FALSE or only_key(t) is not None):
            return ZERO if t.args[1] is FALSE else ONE
        if t.op == "map":
            k = one_key(t)
            if k is not None:
                return vite(k[1], ONE, ZERO)
        if t.op == "uniq":
            x = asT(asV(t.args[0]))
            xs = plain_items(x.args) if x is not None and x.op == "seq" else None
            if xs is not None and len(xs) <= 8:
                n, seen = ZERO, []
                for y in xs:
                    new = y[2]
                    for z in seen:
                        new = gand(new, gnot(gand(z[2], core.eq(y[1], z[1]))))
                    seen.append(y)
                    n = add(n, guarded(new, ONE))
                return n
        if t.op == "tup":
            return num(len(t.args))
        if t.op == "s":
            return num(len(t.args[0]))
        if t.op == "slice":
            lo, hi = t.args[1], t.args[2]
            n = length(vt(t.args[0])) if hi is NONE else hi
            hn = asnum(hi)
            if hn is not None and hn < 0:
                n = add(length(vt(t.args[0])), hi)
            return sub(n, lo)
        if t.op == "rev" or t.op in ("dvals", "ditems", "dkeys"):
            return length(vt(t.args[0]))
        if t.op == "range":
            n = range_span(t)
            return n if nonneg(n) else vite(lt(ZERO, n), n, ZERO)
        return vt(mk("len", t))

    return vmap(f, drop_none(c))


post_hook["len"] = lambda c: length(asV(c))
post_hook["range"] = lambda a, b, c: vt(mk("range", asV(a), asV(b), asV(c)))
post_hook["tup"] = lambda *a: vt(mk("tup", *[asV(x) for x in a]))
post_hook["New"] = lambda c, *a: vt(mk("New", c, *[asV(x) if isinstance(x, (V, T)) else x for x in a]))


def rev_(v):
    def f(p):
        t = asT(p)
        if t is not None and t.op == "rev":
            return vt(t.args[0])
        if t is not None and t.op == "seq":
            s = seq_rev(t.args)
            if s is not None:
                return seqv(s)
        if t is not None and t.op == "range" and asnum(t.args[2]) is not None and abs(asnum(t.args[2])) == 1:
            lo, hi, st = t.args
            return vt(mk("range", sub(hi, st), sub(lo, st), neg(st)))
        return vt(mk("rev", t if t is not None else mk("val", p)))
    return vmap(f, v)


post_hook["rev"] = lambda b: rev_(asV(b))


def slice_(v, lo, hi):
    def f(p):
        t = asT(p)
        if t is None:
            t = mk("val", p)
        if lo is ZERO and hi is NONE:
            return p
        if t.op == "seq" and all(s[0] == "e" and s[2] is TRUE for s in t.args):
            a, b = asnum(lo), (None if hi is NONE else asnum(hi))
            if a is not None and (hi is NONE or b is not None):
                return seqv(t.args[int(a):(None if b is None else int(b))])
        if t.op == "s" and asnum(lo) is not None and (hi is NONE or asnum(hi) is not None):
            return string(t.args[0][int(asnum(lo)):(None if hi is NONE else int(asnum(hi)))])
        if t.op == "slice" and t.args[2] is NONE and not (asnum(lo) is not None and asnum(lo) < 0) and hi is NONE:
            return vt(mk("slice", t.args[0], add(t.args[1], lo), NONE))
        l2 = lo
        if asnum(lo) is not None and asnum(lo) < 0:
            l2 = add(length(p), lo)
        return vt(mk("slice", t, l2, hi))
    return vmap(f, drop_none(v))


post_hook["slice"] = lambda b, lo, hi: slice_(asV(b), asV(lo), asV(hi))


distinct_hook = [lambda t: False]


def index_(c, x):
    t = asT(c)
    if t is not None and t.op == "seq" and t.args and all(s[0] == "e" for s in t.args):
        gs = [gand(s[2], eq(s[1], x)) for s in t.args]
        at = [ZERO]
        for s in t.args:
            at.append(add(at[-1], vite(s[2], ONE, ZERO)))
        r = at[len(gs) - 1] if gany(gs) is TRUE else vt(mk("index", c, x))
        for k in range(len(gs) - 1, -1, -1):
            r = vite(gs[k], at[k], r)
        return r
    if t is not None and t.op != "seq":
        n = length(c)
        j = fresh("i")
        core.idx_hi[j] = n
        return SEL(j, n, eq(item(c, vt(j)), x), vt(j))
    return vt(mk("index", c, x))


post_hook["index"] = lambda c, x: index_(asV(c), asV(x))


# ------------------------------------------------------------- sequences
def seqv(segs):
    return vt(mk("seq", *segs))


_assume = {}


def _literals(g):
    """atoms that g forces, with their value"""
    for a in gsupp(g):
        if gcof(g, a, False) is FALSE:
            yield a, True
        elif gcof(g, a, True) is FALSE:
            yield a, False


def assume(g, v):
    """v simplified under g: its arithmetic atoms decided by the literals g forces"""
    if g is TRUE or isplain(v) or v.__class__ is not V:
        return v
    k = (g, v)
    r = _assume.get(k)
    if r is None:
        r = _assume[k] = _assume1(g, v)
    return r


def _assume1(g, v):
    from .theory import Facts
    f = Facts()
    for a, b in _literals(g):
        if not f.add(a, b):
            return v
    if not f.rows:
        return v
    at = set()
    for _, cs in v.items:
        for _, y in cs:
            at.update(gsupp(y))
    for a in sorted(at, key=lambda t: t.id):
        if a.op not in ("eq", "lt"):
            continue
        if not f.copy().add(a, True):
            v = vcof(v, a, False)
        elif not f.copy().add(a, False):
            v = vcof(v, a, True)
    return v


def vcof(v, a, b):
    d = {}
    for m, cs in v.items:
        e = d[m] = {}
        for c, g in cs:
            e[c] = gcof(g, a, b)
    return core._mkv(d)


def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == "e":
            if s[2] is FALSE:
                continue
            if not isplain(s[1]):
                v = assume(s[2], s[1])
                if v is not s[1]:
                    s = ("e", v, s[2])
            if out and out[-1][0] == "e" and gand(out[-1][2], s[2]) is FALSE:
                p = out.pop()
                out.append(("e", vite(p[2], p[1], s[1]), gor(p[2], s[2])))
                continue
        elif s[0] == "l":
            if not s[3]:
                continue
            n = asnum(s[2])
            if n is not None and n <= 0:
                continue
            if n == 1:
                body, = open_(s[1], ZERO, s[3])
                out.extend(body)
                continue
            # eta: for i<len(C): C[i]  -> splat C
            if len(s[3]) == 1 and s[3][0][0] == "e" and s[3][0][2] is TRUE:
                c = _eta(s)
                if c is not None:
                    out.append(("x", c, TRUE))
                    continue
        elif s[0] == "x":
            t = asT(s[1])
            if s[2] is FALSE:
                continue
            if t is not None and t.op == "seq" and s[2] is TRUE:
                out.extend(t.args)
                continue
            if t is not None and t.op == "map":
                # the keys of a mapping with one key
                k = one_key(t)
                if k is not None:
                    out.append(("e", k[0], gand(s[2], k[1])))
                    continue
            if t is not None and t.op == "range":
                y = fresh("i")
                core.idx_hi[y] = n = range_span(t)
                out.extend(seg_loop(y, n, (("e", add(t.args[0], mul(t.args[2], vt(y))), s[2]),)))
                continue
        out.append(s)
        # a loop followed by its own next pass is a longer loop
        if s[0] == "e" and len(out) > 1:
            j = len(out) - 2
            while j >= 0 and out[j][0] == "e" and len(out) - j <= 6:
                j -= 1
            if j >= 0 and out[j][0] == "l" and len(out[j][3]) == len(out) - 1 - j and out[j][3][-1][0] == "e":
                l = out[j]
                nxt, = open_(l[1], l[2], l[3])
                if all(a[0] == b[0] and a[1] is b[1] and a[2] is b[2] for a, b in zip(nxt, out[j + 1:])):
                    del out[j:]
                    out.append(("l", l[1], add(l[2], ONE), l[3]))
    # adjacent loops over the same domain stay separate (order matters)
    return tuple(out)


def _eta(s):
    y = fresh("b")
    v, = open_(s[1], vt(y), s[3][0][1])
    t = asT(v)
    if t is not None and t.op == "item" and y not in t.args[0].free and t.args[1] is vt(y):
        if length(vt(t.args[0])) is s[2]:
            return vt(t.args[0])
    return None


def seg_loop(sym, hi, segs):
    """for sym in 0..hi: segs   -> list of segments"""
    segs = norm_segs(segs)
    if not segs:
        return ()
    g = segs_guard(segs)
    if sym in g.free:
        sym, hi, g, segs = shrunk(sym, hi, g, segs)
        segs = norm_segs(segs)
        if not segs:
            return ()
    h, (b,) = bind(sym, segs)
    return norm_segs((("l", h, hi, b),))


def segs_guard(segs):
    g = FALSE
    for s in segs:
        g = gor(g, s[2] if s[0] in ("e", "x") else TRUE)
    return g


def guard_segs(g, segs):
    if g is TRUE:
        return tuple(segs)
    if g is FALSE:
        return ()
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(("e", s[1], gand(g, s[2])))
        elif s[0] == "l":
            out.append(("l", s[1], s[2], guard_segs(g, s[3])))
        else:
            out.append(("x", s[1], gand(g, s[2])))
    return norm_segs(out)


def seq_len(segs):
    r = ZERO
    for s in segs:
        if s[0] == "e":
            r = add(r, guarded(s[2], ONE))
        elif s[0] == "x":
            r = add(r, guarded(s[2], length(s[1])))
        else:
            y = fresh("i")
            b, = open_(s[1], vt(y), s[3])
            r = add(r, SUM(y, s[2], seq_len(b)))
    return r


def has_bv(g, h):
    """does g mention the bound variable of the enclosing binder"""
    w = mk("sym", "bvtest")
    b, = open_(h, vt(w), g)
    return b is not g


def seq_item(segs, q):
    n = asnum(q)
    if n is not None and n >= 0:
        k = n
        for s in segs:
            if s[0] == "e" and s[2] is TRUE:
                if k == 0:
                    return s[1]
                k -= 1
            else:
                break
    if n is not None and n < 0:
        k = -n
        for s in reversed(segs):
            if s[0] == "e" and s[2] is TRUE:
                k -= 1
                if k == 0:
                    return s[1]
            else:
                break
        if len(segs) == 1 and segs[0][0] == "x":
            return item(segs[0][1], q)
    if n == -1 and len(segs) == 1 and segs[0][0] == "l" and len(segs[0][3]) == 1 and segs[0][3][0][0] == "e" \
            and has_bv(segs[0][3][0][2], segs[0][1]):
        # the last element kept
        s = segs[0]
        y = fresh("i")
        e, = open_(s[1], vt(y), s[3][0])
        return SEL(y, s[2], e[2], e[1])
    # symbolic position
    if len(segs) == 1:
        s = segs[0]
        if s[0] == "x" and s[2] is TRUE:
            return item(s[1], q)
        if s[0] == "l" and len(s[3]) == 1 and s[3][0][0] == "e" and (s[3][0][2] is TRUE or not has_bv(s[3][0][2], s[1])):
            if n is not None and n < 0:
                q = add(s[2], q)
            v, = open_(s[1], q, s[3][0][1])
            return v
    if n is None and isplain(q):
        # position off + k*y + e: element e of pass y of a loop of k elements after off single elements
        lead = 0
        while lead < len(segs) and segs[lead][0] == "e" and segs[lead][2] is TRUE:
            lead += 1
        if lead < len(segs) and segs[lead][0] == "l" and (lead or len(segs[lead][3]) > 1):
            l = segs[lead]
            k = len(l[3])
            c = None
            y = {}
            if all(x[0] == "e" and x[2] is TRUE for x in l[3]):
                c = F0
                for m, cs in q.items:
                    a = cs[0][0]
                    if m == ():
                        c = a
                    elif (a / k).denominator == 1 and all(isidx(t) and e == 1 for t, e in m):
                        y[m] = {a / k: TRUE}
                    else:
                        c = None
                        break
            if c is not None and c.denominator == 1:
                e = (c - lead) % k
                b = (c - lead - e) / k
                yv = add(core._mkv(y), num(b))
                if core._lt_plain(yv, ZERO) is FALSE and core._lt_plain(yv, l[2]) is TRUE:
                    v, = open_(l[1], yv, l[3][int(e)][1])
                    return v
    if n is None and len(segs) > 1 and len(segs) <= 6:
        # leading single elements then one regular segment
        lead = 0
        while lead < len(segs) and segs[lead][0] == "e" and segs[lead][2] is TRUE:
            lead += 1
        if lead == len(segs) or lead == len(segs) - 1:
            if lead == len(segs):
                r = segs[-1][1]
                rng = lead - 1
            else:
                r = seq_item(segs[lead:], sub(q, num(lead)))
                rng = lead
            if r is not None:
                for k in range(rng - 1, -1, -1):
                    r = vite(eq(q, num(k)), segs[k][1], r)
                return r
    if n is None and 1 < len(segs) <= 4 and all(s[0] == "e" or s[0] == "l" and len(s[3]) == 1 and s[3][0][0] == "e"
                                                and not has_bv(s[3][0][2], s[1]) for s in segs):
        # parts whose length does not depend on their elements, one after the other
        cases = []
        for s in segs:
            k = seq_len((s,))
            if s[0] == "e":
                v = s[1]
            else:
                v, = open_(s[1], q, s[3][0][1])
            cases.append((lt(q, k), v))
            q = sub(q, k)
        r = cases[-1][1]
        for g, v in reversed(cases[:-1]):
            r = vite(g, v, r)
        return r
    return None


def seq_rev(segs):
    out = []
    for s in reversed(segs):
        if s[0] == "e":
            out.append(s)
        elif s[0] == "x" and s[2] is TRUE:
            out.append(("x", rev_(s[1]), TRUE))
        elif s[0] == "l":
            y = fresh("i")
            b, = open_(s[1], sub(sub(s[2], ONE), vt(y)), s[3])
            b = seq_rev(b)
            if b is None:
                return None
            out.extend(seg_loop(y, s[2], b))
        else:
            return None
    return tuple(out)


def post_seq(*segs):
    return seqv(norm_segs(segs))


post_hook["seq"] = post_seq


def seq_in(segs, x):
    r = FALSE
    for s in segs:
        if s[0] == "e":
            r = gor(r, gand(s[2], eq(s[1], x)))
        elif s[0] == "x":
            r = gor(r, gand(s[2], contains(s[1], x)))
        else:
            y = fresh("i")
            b, = open_(s[1], vt(y), s[3])
            r = gor(r, EX(y, s[2], seq_in(b, x)))
    return r


def whole(p):
    """integer by construction"""
    for m, cs in p.items:
        for c, g in cs:
            if c.denominator != 1:
                return False
        for t, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if not (t.op in ("len", "floor", "int") or isidx(t)):
                return False
    return True


HALF = Fraction(1, 2)


def floor_(v):
    def f(p):
        n = asnum(p)
        if n is not None:
            return num(n.numerator // n.denominator)
        if whole(p):
            return p
        # the integer part of the constant term comes out
        c = p.items and next((cs[0][0] for m, cs in p.items if m == ()), F0)
        k = c.numerator // c.denominator if c else 0
        if k:
            return add(floor_(sub(p, num(k))), num(k))
        if c == HALF and whole(scale(sub(p, num(c)), 2)):
            # m / 2 + 1 / 2
            q = sub(p, num(c))
            return sub(scale(q, 2), floor_(q))
        return vt(mk("floor", p))
    return vmap(f, v)


def _remainder(d):
    """p mod k == c: never when c is not among 0..k-1; p mod 2 == 1 when p mod 2 == 0 is not"""
    fl = [(m[0][0], cs[0][0]) for m, cs in d.items
          if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "floor" and len(cs) == 1 and cs[0][1] is TRUE]
    if len(fl) != 1:
        return None
    t, a = fl[0]
    q = t.args[0]
    if not q.items or not isplain(q) or not isplain(d):
        return None
    m0, c0 = q.items[-1][0], q.items[-1][1][0][0]
    if m0 == ():
        return None
    b = next((cs[0][0] for m, cs in d.items if m == m0), F0)
    if not b:
        return None
    s = b / c0                 # d = s * q + a * floor(q) + c
    rest = sub(sub(d, scale(q, s)), scale(vt(t), a))
    c = asnum(rest)
    if c is None or a != -s:
        return None
    den = 1
    for m, cs in q.items:
        den = den * cs[0][0].denominator // math.gcd(den, cs[0][0].denominator)
    if not whole(scale(q, den)) or den < 2:
        return None
    c = -c * den / s           # p mod den == c
    if c.denominator != 1 or not 0 <= c < den:
        return FALSE
    if den == 2 and c == 1:
        return gnot(eq(sub(q, vt(t)), ZERO))
    return None


core.remainder_hook[0] = _remainder


def contains(c, x):
    def f(p, q):
        t = asT(p)
        if t is None:
            t = mk("val", p)
        if t.op == "seq":
            return seq_in(t.args, q)
        if t.op == "tup":
            return gany(eq(a, q) for a in t.args)
        if t.op == "map":
            g, _ = open_(t.args[0], q, t.args[1], t.args[2])
            return g
        if t.op == "rev" or t.op == "uniq":
            return contains(asV(t.args[0]), q)
        if t.op == "range":
            lo, hi, st = t.args
            k = asnum(st)
            if k is not None and k > 0 and whole(q) and whole(lo) and whole(hi):
                d = scale(sub(q, lo), 1 / k)
                on = TRUE if k == 1 else eq(d, floor_(d))
                return gand(gand(gnot(lt(q, lo)), lt(q, hi)), on)
            return gatom(mk("in", q, t))
        if t.op == "none":
            return FALSE
        qt = asT(q)
        if qt is not None and qt.op == "item" and qt.args[0] is t:
            return TRUE
        return gatom(mk("in", q, t))

    return gmap(f, drop_none(c), x)


gpost_hook["in"] = lambda x, c: contains(asV(c), asV(x))


# ------------------------------------------------------------- aggregates
def _split_free(g, sym):
    """first atom of the support not depending on sym (None if all depend)"""
    best = None
    for a in gsupp(g):
        if a is None:
            continue
        if sym not in a.free:
            if best is None or a.id < best.id:
                best = a
    return best


def _fixgsupp(g):
    return g


def onepoint(sym, hi, g):
    """if g implies  item(C, sym) == K  (K free of sym) with hi == len(C): returns (C, K, atom) list"""
    out = []
    for a in gsupp(g):
        if a.op != "eq" or sym not in a.free:
            continue
        if not implies(g, gatom(a)):
            continue
        d = a.args[0]
        if not isplain(d):
            continue
        for m, cs in d.items:
            if len(m) == 1 and m[0][1] == 1 and abs(cs[0][0]) == 1:
                t = m[0][0]
                if t.op == "item" and t.args[1] is vt(sym) and sym not in t.args[0].free:
                    rest = sub(d, scale(vt(t), cs[0][0]))
                    if sym in rest.free:
                        continue
                    k = scale(rest, -cs[0][0])
                    if length(vt(t.args[0])) is hi:
                        out.append((t, k, a))
                elif t is sym:
                    rest = sub(d, scale(vt(t), cs[0][0]))
                    if sym in rest.free:
                        continue
                    out.append((t, scale(rest, -cs[0][0]), a))
    return out


def lin_in(d, sym):
    """d == co*sym + rest -> (co, K) with d == co*(sym - K), else None"""
    if not isplain(d):
        return None
    co = None
    for m, cs in d.items:
        if len(m) == 1 and m[0][0] is sym and m[0][1] == 1:
            co = cs[0][0]
    if co is None:
        return None
    rest = sub(d, scale(vt(sym), co))
    if sym in rest.free:
        return None
    return co, scale(rest, -1 / co)


def shrink(sym, hi, g):
    """tighten the range of sym by bounds implied by g: (lower shift, new hi) or None"""
    if not isplain(hi):
        return None
    info = {}
    for a in gsupp(g):
        if a is None or a.op not in ("eq", "lt") or sym not in a.free:
            continue
        r = lin_in(a.args[0], sym)
        if r is None:
            continue
        co, K = r
        e = info.setdefault(K, [None, None, None])   # ne, upper (sym<K / <=K), lower
        if a.op == "eq":
            if implies(g, gnot(gatom(a))):
                e[0] = True
            continue
        if implies(g, gatom(a)):
            if co > 0:
                e[1] = "<"
            else:
                e[2] = ">"
        elif implies(g, gnot(gatom(a))):
            if co > 0:
                e[2] = ">="
            else:
                e[1] = "<="
    for K, (ne, up, lo) in info.items():
        if not all(x.denominator == 1 for m, cs in K.items for x, _ in cs):
            continue
        if ne and K is ZERO:
            return ONE, hi
        if ne and K is sub(hi, ONE):
            return ZERO, K
        if ne and up == "<=":
            up = "<"
        if ne and lo == ">=":
            lo = ">"
        if up:
            nh = K if up == "<" else add(K, ONE)
            if nh is not hi and core._lt_plain(hi, nh) is FALSE:
                return ZERO, nh
        if lo:
            nl = K if lo == ">=" else add(K, ONE)
            if nl is not ZERO and core._lt_plain(nl, ZERO) is FALSE:
                return nl, hi
    return None


def shrunk(sym, hi, g, *xs):
    """apply shrink repeatedly; returns (sym, hi, g, xs)"""
    for _ in range(6):
        r = shrink(sym, hi, g)
        if r is None:
            break
        lo, nh = r
        y = fresh("i")
        hi = sub(nh, lo)
        core.idx_hi[y] = hi
        sb = Subst({sym: add(vt(y), lo)})
        g = sb.any(g)
        xs = tuple(sb.any(x) for x in xs)
        sym = y
    return (sym, hi, g) + tuple(xs)


def EX(sym, hi, g):
    if sym in g.free and not (g is FALSE):
        sym, hi, g = shrunk(sym, hi, g)
    n = asnum(hi)
    if g is FALSE or (n is not None and n <= 0):
        return FALSE
    if n is not None and n <= 8 and n == int(n):
        return gany(subst(g, {sym: num(k)}) for k in range(int(n)))
    if n is None and not isplain(hi):
        return gany(gand(c, EX(sym, p, g)) for c, p in pieces(hi))
    if sym not in g.free:
        return gand(g, lt(ZERO, hi))
    a = _split_free(g, sym)
    if a is not None:
        return gite(gatom(a), EX(sym, hi, gcof(g, a, True)), EX(sym, hi, gcof(g, a, False)))
    for t, k, a in onepoint(sym, hi, g):
        if t is sym:
            inb = gand(le(ZERO, k), lt(k, hi))
            return gand(inb, subst(g, {sym: k}))
        g2 = subst(g, {t: k})
        if sym not in g2.free:
            return gand(contains(vt(t.args[0]), k), g2)
    # disjunction at top: distribute when the BDD is a plain disjunction of literals
    lits = _or_literals(g)
    if lits is not None and len(lits) > 1:
        return gany(EX(sym, hi, l) for l in lits)
    r = _pairs(sym, hi, g)
    if r is not None:
        return r
    h, (b,) = bind(sym, g)
    return gatom(mk("ex", h, hi, b))


def _dup(t):
    """t counts the elements like the one at an index: the others among them"""
    hi = t.args[1]
    if not isplain(hi):
        return None
    for s in t.free:
        if core.idx_hi.get(s) is hi:
            w = fresh("i")
            core.idx_hi[w] = hi
            b, = open_(t.args[0], vt(w), t.args[3])
            if subst(b, {w: vt(s)}) is TRUE:
                return EX(w, hi, gand(b, gnot(eq(vt(w), vt(s)))))
    return None


core.dup_hook[0] = _dup


def _pairs(sym, hi, g):
    """two different positions in a symmetric relation: the first of them comes second"""
    if g.var is None or g.var.op != "ex" or g.hi is not TRUE or g.lo is not FALSE or g.var.args[1] is not hi:
        return None
    w = fresh("i")
    core.idx_hi[w] = hi
    b, = open_(g.var.args[0], vt(w), g.var.args[2])
    e = eq(vt(w), vt(sym))
    if e.var is None or gand(b, e) is not FALSE:
        return None
    r = gcof(b, e.var, e.hi is FALSE)
    v = fresh("i")
    core.idx_hi[v] = hi
    if subst(subst(subst(r, {w: vt(v)}), {sym: vt(w)}), {v: vt(sym)}) is not r:
        return None
    return EX(sym, hi, EX(w, vt(sym), r))


def _or_literals(g):
    out = []
    while g.var is not None:
        if g.hi is TRUE:
            out.append(gatom(g.var))
            g = g.lo
        elif g.lo is TRUE:
            out.append(gnot(gatom(g.var)))
            g = g.hi
        else:
            return None
    return out if g is FALSE or g is None else None


BINDERS["ex"] = 1
binder_hook["ex"] = lambda s, hi, g: EX(s, asV(hi), g)


def SUM(sym, hi, v):
    r = ZERO
    n = asnum(hi)
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n == 1:
        return subst(v, {sym: ZERO})
    if n is None and not isplain(hi):
        r = None
        for c, p in pieces(hi):
            x = SUM(sym, p, v)
            r = x if r is None else vite(c, x, r)
        return r
    for m, cs in v.items:
        fr = ONE
        dep = ONE
        for t, e in m:
            b = core._mkv({((t, e),): {F1: TRUE}})
            if sym in t.free:
                dep = mul(dep, b)
            else:
                fr = mul(fr, b)
        for c, g in cs:
            r = add(r, mul(scale(fr, c), _sum1(sym, hi, dep, g)))
    return r


def _sum1(sym, hi, dep, g):
    if g is FALSE:
        return ZERO
    if sym in g.free:
        sym, hi, g, dep = shrunk(sym, hi, g, dep)
        if g is FALSE:
            return ZERO
    n = asnum(hi)
    if n is not None and n <= 0:
        return ZERO
    if not isplain(dep) or len(dep.items) != 1:
        return SUM(sym, hi, guarded(g, dep))
    if sym not in g.free:
        if sym not in dep.free:
            if not nonneg(hi):
                g = gand(g, gnot(lt(hi, ZERO)))
            return guarded(g, mul(hi, dep))
        h, (b, gg) = bind(sym, dep, TRUE)
        return guarded(g, vt(mk("sum", h, hi, b, gg)))
    a = _split_free(g, sym)
    if a is not None:
        return vite(gatom(a), _sum1(sym, hi, dep, gcof(g, a, True)), _sum1(sym, hi, dep, gcof(g, a, False)))
    for t, k, a in onepoint(sym, hi, g):
        if t is sym:
            inb = gand(le(ZERO, k), lt(k, hi))
            return guarded(gand(inb, subst(g, {sym: k})), subst(dep, {sym: k}))
        if is_dict(t.args[0]):
            g2 = subst(g, {t: k})
            d2 = subst(dep, {t: k})
            if sym not in g2.free and sym not in d2.free:
                return guarded(gand(contains(vt(t.args[0]), k), g2), d2)
    h, (b, gg) = bind(sym, dep, g)
    return vt(mk("sum", h, hi, b, gg))


BINDERS["sum"] = 1
binder_hook["sum"] = lambda s, hi, v, g: SUM(s, asV(hi), guarded(g, asV(v)))


def SEL(sym, hi, g, v):
    """value of v at the (unique) index where g holds"""
    if sym in g.free:
        sym, hi, g, v = shrunk(sym, hi, g, v)
    n = asnum(hi)
    if n is not None and n == 1:
        return subst(v, {sym: ZERO})
    if sym not in v.free:
        return v
    t = asT(v)
    if t is not None and t.op == "tup":
        return vt(mk("tup", *[SEL(sym, hi, g, asV(x)) for x in t.args]))
    if sym in g.free:
        v = assume(g, v)
    # drop pieces of v not compatible with g
    ps = [(x, p) for x, p in pieces(v) if gand(x, g) is not FALSE]
    if len(ps) == 1:
        v = ps[0][1]
        if sym not in v.free:
            return v
    if sym in g.free:
        for t, k, a in onepoint(sym, hi, g):
            v2 = subst(v, {t: k})
            if sym not in v2.free:
                return v2
        t = asT(v)
        m = ((t, F1),)
        for a in gsupp(g) if t is not None else ():
            # g fixes the value
            if a.op == "eq" and sym in a.free and isplain(a.args[0]) and implies(g, gatom(a)):
                c = next((cs[0][0] for x, cs in a.args[0].items if x == m), None)
                if c is not None:
                    k = scale(sub(scale(v, c), a.args[0]), 1 / c)
                    if sym not in k.free:
                        return k
    # i-free atoms in g are irrelevant for the position when implied; expand
    a = _split_free(g, sym)
    if a is not None:
        return vite(gatom(a), SEL(sym, hi, gcof(g, a, True), v), SEL(sym, hi, gcof(g, a, False), v)) \
            if gcof(g, a, True) is not FALSE and gcof(g, a, False) is not FALSE else \
            (SEL(sym, hi, gcof(g, a, True), v) if gcof(g, a, False) is FALSE else SEL(sym, hi, gcof(g, a, False), v))
    if g is TRUE:
        return subst(v, {sym: sub(hi, ONE)})
    if len(ps) > 1 and all(const_piece(p) for _, p in ps):
        return vmap_sel(sym, hi, g, ps)
    h, (gg, b) = bind(sym, g, v)
    return vt(mk("sel", h, hi, gg, b))


def const_piece(p):
    if asnum(p) is not None:
        return True
    t = asT(p)
    return t is not None and (isconst_atom(t) or t.op in ("true", "false"))


def vmap_sel(sym, hi, g, ps):
    # guarded value: select by the pieces' conditions at the selected index
    r = None
    for x, p in reversed(ps):
        y = gand(g, x)
        s = SEL(sym, hi, y, p)
        r = s if r is None else vite(EX(sym, hi, y), s, r)
    return r


BINDERS["sel"] = 1
binder_hook["sel"] = lambda s, hi, g, v: SEL(s, asV(hi), g, asV(v))


def MAXF(sym, hi, g, v, init):
    if sym in g.free:
        sym, hi, g, v = shrunk(sym, hi, g, v)
    n = asnum(hi)
    if n is not None and n <= 0:
        return init
    h, (b, gg) = bind(sym, v, g)
    return vt(mk("maxf", h, hi, b, gg, init))


def MINF(sym, hi, g, v, init):
    return neg(MAXF(sym, hi, g, neg(v), neg(init)))


def _bh_maxf(s, hi, v, g, init):
    return MAXF(s, asV(hi), g, asV(v), asV(init))


BINDERS["maxf"] = 1
binder_hook["maxf"] = _bh_maxf


def MAP(sym, present, value):
    h, (p, v) = bind(sym, present, value)
    # eta
    t = asT(v)
    return vt(mk("map", h, p, v))


BINDERS["map"] = 0
binder_hook["map"] = lambda s, p, v: MAP(s, p, asV(v))


def vmax(a, b):
    return vite(lt(a, b), b, a)


def vmin(a, b):
    return vite(lt(b, a), b, a)


# ------------------------------------------------------------- strings
def strv(parts):
    """parts: segs whose elements are literals / formatted values"""
    out = []
    for s in parts:
        if s[0] == "e" and s[2] is TRUE and out and out[-1][0] == "e" and out[-1][2] is TRUE:
            a, b = asstr(out[-1][1]), asstr(s[1])
            if a is not None and b is not None:
                out[-1] = ("e", string(a + b), TRUE)
                continue
        if s[0] == "e" and s[2] is TRUE and asstr(s[1]) == "":
            continue
        out.append(s)
    out = norm_str(out)
    if not out:
        return string("")
    if len(out) == 1 and out[0][0] == "e" and out[0][2] is TRUE:
        return out[0][1]
    return vt(mk("str", *out))


text_hook = [lambda v: False]      # may the value be a text (and hence print as nothing)


def text_present(parts):
    """guard under which a text of these parts is not empty, None when undecided"""
    r = FALSE
    for s in parts:
        if s[0] == "l":
            y = fresh("i")
            core.idx_hi[y] = s[2]
            b, = open_(s[1], vt(y), s[3])
            g = text_present(b)
            if g is None:
                return None
            r = gor(r, EX(y, s[2], g))
            continue
        if s[0] != "e":
            return None
        for g, p in pieces(s[1]):
            t = asT(p)
            if t is not None and t.op == "s":
                if t.args[0]:
                    r = gor(r, gand(g, s[2]))
            elif t is not None and t.op == "fmt" and not text_hook[0](t.args[0][0]):
                r = gor(r, gand(g, s[2]))
            else:
                return None
    return r


core.present_hook[0] = text_present


def norm_str(out):
    r = norm_str1(out)
    # the same piece under exclusive conditions, nothing else between them: written once
    i = 0
    while i < len(r):
        s = r[i]
        if s[0] == "e" and s[2] is not TRUE:
            j = i + 1
            while j < len(r) and r[j][0] == "e" and gand(s[2], r[j][2]) is FALSE:
                if r[j][1] is s[1]:
                    r[j] = ("e", s[1], gor(s[2], r[j][2]))
                    del r[i]
                    return norm_str(r)
                j += 1
        i += 1
    return r


def norm_str1(out):
    r = []
    for s in out:
        if s[0] == "e" and s[2] is FALSE:
            continue
        if s[0] == "l" and not s[3]:
            continue
        if s[0] == "e" and r and r[-1][0] == "e" and r[-1][2] is s[2] and s[2] is not TRUE:
            a, b = asstr(r[-1][1]), asstr(s[1])
            if a is not None and b is not None:
                r[-1] = ("e", string(a + b), s[2])
                continue
        r.append(s)
    return r


def str_parts(v):
    """V (string) -> parts"""
    ps = pieces(v)
    out = []
    if len(ps) == 1:
        return _parts1(v)
    # guarded alternatives: factor the common prefix
    lists = [(g, list(_parts1(p))) for g, p in ps]
    pre = []
    while all(l for _, l in lists) and all(l[0] == lists[0][1][0] for _, l in lists):
        pre.append(lists[0][1][0])
        for _, l in lists:
            l.pop(0)
    for g, l in lists:
        pre.extend(guard_segs_str(g, l))
    return tuple(pre)


def guard_segs_str(g, segs):
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(("e", s[1], gand(g, s[2])))
        elif s[0] == "l":
            out.append(("l", s[1], s[2], tuple(guard_segs_str(g, s[3]))))
        else:
            out.append(("x", s[1], gand(g, s[2])))
    return out


def _parts1(p):
    t = asT(p)
    if t is not None and t.op == "str":
        return t.args
    if p is ZERO:
        return (("e", vt(mk("fmt", (ZERO, ""))), TRUE),)
    if t is not None and t.op == "s":
        return (("e", p, TRUE),) if t.args[0] else ()
    if t is not None and t.op == "fmt":
        return (("e", p, TRUE),)
    return (("e", vt(mk("fmt", (p, ""))), TRUE),)


post_hook["str"] = lambda *segs: strv(segs)


def concat(a, b):
    return strv(tuple(str_parts(a)) + tuple(str_parts(b)))


def fmt1(v, spec):
    """text of one value"""
    def f(p):
        t = asT(p)
        if t is not None and t.op in ("str", "fmt", "s") and spec == "":
            return p
        n = asnum(p)
        if n is not None and spec == "" and n.denominator == 1:
            return string(str(int(n)))
        return vt(mk("fmt", (p, spec)))
    return vmap(f, v)


def _post_fmt(*a):
    x, spec = a[0]
    return fmt1(asV(x), spec)


post_hook["fmt"] = _post_fmt


def is_string(v):
    for g, p in pieces(v):
        t = asT(p)
        if t is None:
            return False
        if t.op in ("s", "str", "fmt"):
            continue
        ty = ptype.get(t)
        if ty is not None and ty[0] == "str":
            continue
        return False
    return True


# ------------------------------------------------------------- methods of constant texts
def text_method(name, a):
    """the value of a method of a constant text, None when it is not one"""
    cs = [asstr(x) for x in a]
    if not cs or None in cs:
        return None
    if name in ("rstrip", "strip", "lstrip", "lower", "upper") or name == "replace" and len(cs) == 3:
        return string(getattr(cs[0], name)(*cs[1:]))
    if name in ("startswith", "endswith") and len(cs) == 2:
        return core.VT if getattr(cs[0], name)(cs[1]) else core.VF
    if name == "split" and len(cs) <= 2:
        return seqv(tuple(("e", string(x), TRUE) for x in cs[0].split(*cs[1:])))
    return None


def _post_ext(name, args):
    if name.startswith(".") and all(isinstance(x, V) for x in args):
        r = text_method(name[1:], args)
        if r is not None:
            return r
    return vt(mk("ext", name, args))


post_hook["ext"] = _post_ext


def whole_text(s):
    import re
    return num(int(s)) if re.fullmatch("[+-]?[0-9]+", s) else None


def _post_int(p):
    def f(q):
        s = asstr(q)
        r = whole_text(s) if s is not None else None
        return r if r is not None else vt(mk("int", q))
    return vmap(f, asV(p))


post_hook["int"] = _post_int


def _post_perr(kind, p):
    v = asV(p)
    if not isplain(v):
        return gmap(lambda q: _post_perr(kind, q), v)
    s = asstr(v)
    if s is not None and kind in ("int", "float"):
        try:
            {"int": int, "float": float}[kind](s)
            return FALSE
        except ValueError:
            return TRUE
    return gatom(mk("perr", kind, p))


gpost_hook["perr"] = _post_perr
