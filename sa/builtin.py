"""Builtins, container / string methods, external calls."""
import ast
import builtins
import itertools
import os
import re
from fractions import Fraction
from .core import *
from . import core, norm
from .norm import *
from .interp import Interp, State, Unsupported, UNDEF
from .theory import Theory, Budget
from .ev import Exec, EXC_PARENTS

INT_TYPES = {"int"}
# functions the engine has no model of: their results are never compared with certainty
PYTHON = {n for n in dir(builtins) if n[0].islower()}
STDLIB = ("itertools.", "functools.", "operator.", "collections.", "math.", "numpy.", "np.", "copy.", "statistics.", "heapq.", "bisect.")



def seq_map(segs, f):
    out = []
    for s in segs:
        if s[0] == "l":
            out.append((s[0], s[1], s[2], seq_map(s[3], f)))
        elif s[0] == "e":
            out.append(("e", f(s[1]), s[2]))
        else:
            z = fresh("i")
            out.extend(seg_loop(z, length(s[1]), (("e", f(item(s[1], vt(z))), s[2]),)))
    return tuple(out)


def unpadded(v):
    """int() and float() ignore white space around the digits"""
    def f(p):
        t = asT(p)
        while t is not None and t.op == "ext" and t.args[0] in (".strip", ".rstrip", ".lstrip") \
                and all(asstr(a) is not None and not asstr(a).strip() for a in t.args[1][1:]):
            p = t.args[1][0]
            t = asT(p)
        return p
    return vmap(f, v)


def literal_keys(t):
    """keys of a frozen dict display"""
    ks = []
    z = fresh("b")
    g, = open_(t.args[0], vt(z), t.args[1])
    while g is not FALSE:
        if g.var is None or g.var.op != "eq":
            return None
        k = sub(vt(z), g.var.args[0])
        if asstr(k) is None:
            k = add(vt(z), g.var.args[0])
        if asstr(k) is None or g.hi is not TRUE:
            return None
        ks.append(k)
        g = g.lo
    return ks


class Builtins(Exec):
    # ------------------------------------------------------------ methods of containers / strings
    def builtin_method(self, p, t, name, args, kw, st, e):
        if t is None:
            return vt(mk("ext", "." + name, (p,) + tuple(self.resolve(a, st) for a in args)))
        ty = self.typeof(t)
        c = st.store.get(("c", t))
        isstr = self.is_string(p)
        if name == "append" or name == "add":
            v = args[0]
            if name == "add":
                pass
            self.append(p, v, st)
            return NONE
        if name in ("appendleft",):
            self.set_list(p, st, lambda segs: (("e", args[0], TRUE),) + segs)
            return NONE
        if name == "extend":
            new = self.segs_iter(args[0], st)
            self.set_list(p, st, lambda segs: segs + new)
            return NONE
        if name == "insert":
            n = asnum(args[0])
            if n == 0:
                self.set_list(p, st, lambda segs: (("e", args[1], TRUE),) + segs)
                return NONE
            a = [self.resolve(x, st) for x in args]
            self.set_list(p, st, lambda segs: (("x", vt(mk("ext", "insert", (seqv(segs),) + tuple(a))), TRUE),))
            return NONE
        if name == "update" and (c is None or c[0] == "D"):
            if kw:
                for k in kw:
                    self.set_sub(p, string(k), kw[k], st)
                if not args:
                    return NONE
            return self.prelude("pairs_update" if self.listlike(args[0], st) else "dict_update", [p, args[0]], st)
        if name == "get" and len(args) in (1, 2):
            k = args[0]
            d = args[1] if len(args) == 2 else NONE
            g = self.contains(p, k, st)
            v = self.subscript(p, k, st)
            if self.vtype(v) is None and d is ZERO and ty and ty[0] == "dict" and ty[2] and ty[2][0] == "num":
                return v
            if d is ZERO and ty and ty[0] == "dict" and ty[2] and ty[2][0] == "num":
                return v
            if self.listlike(d, st) and self.segs(d, st) == () and ty and ty[0] == "dict" and ty[2] and ty[2][0] in ("list", "dict"):
                # empty default: iterating nothing is the same as a missing key
                return v
            return vite(g, v, d)
        if name == "setdefault":
            g = self.contains(p, args[0], st)
            self.branch(g, st, lambda s: None, lambda s: self.set_sub(p, args[0], args[1], s))
            return self.subscript(p, args[0], st)
        if name == "keys":
            return p
        if name == "values" and not args:
            return vt(mk("dvals", t))
        if name == "items" and not args:
            return vt(mk("ditems", t))
        if name == "copy" and not args:
            if (c is not None and c[0] == "L") or (ty and ty[0] == "list"):
                return self.newlist(e, st, self.segs(p, st))
            return self.resolve(p, st)
        if name == "index" and not isstr:
            segs = self.segs(p, st)
            return index_(seqv(segs) if not (len(segs) == 1 and segs[0][0] == "x") else segs[0][1],
                          self.resolve(args[0], st))
        if name == "count" and not isstr and len(args) == 1:
            return self.seq_fold_sum(self.segs(p, st), lambda v: fromnum(eq(v, args[0])))
        if name == "remove":
            v = self.resolve(args[0], st)
            self.set_list(p, st, lambda segs: self.removed(segs, v))
            return NONE
        if name in ("pop", "popleft"):
            return self.pop(p, t, name, args, st)
        if name == "clear":
            self.set_list(p, st, lambda segs: ())
            return NONE
        if name == "sort" and kw.get("key", NONE) is not NONE:
            r = self.b_sorted([p], kw, st, e)
            self.set_list(p, st, lambda segs: (("x", r, TRUE),))
            return NONE
        if name == "sort":
            a = tuple(self.resolve(x, st) for x in args) + tuple(("k", k, kw[k]) for k in sorted(kw))
            self.set_list(p, st, lambda segs: (("x", vt(mk("ext", "sorted", (seqv(segs),) + a)), TRUE),))
            return NONE
        if name == "reverse":
            self.set_list(p, st, lambda segs: (seq_rev(segs) or (("x", rev_(seqv(segs)), TRUE),)))
            return NONE
        if name == "format":
            return self.str_format(p, args, kw, st)
        if name == "join":
            return self.join(p, args[0], st)
        a = tuple(self.resolve(x, st) for x in args)
        if name in ("split", "rstrip", "strip", "lstrip", "lower", "upper", "startswith", "replace", "endswith",
                    "splitlines", "readlines", "read"):
            r = norm.text_method(name, (p,) + a) if not kw else None
            if r is not None:
                return r
            if name == "startswith":
                return fromg(gatom(mk("ext", ".startswith", (p,) + a)))
            if name == "endswith":
                return fromg(gatom(mk("ext", ".endswith", (p,) + a)))
            if name in ("readlines",):
                r = mk("lines", t)
                self.ptype[r] = ("list", ("str",))
                return vt(r)
            r = mk("ext", "." + name, (p,) + a)
            if name in ("split", "splitlines"):
                self.ptype[r] = ("list", ("str",))
            else:
                self.ptype[r] = ("str",)
            return vt(r)
        if name in ("write", "close", "writelines", "to_csv", "savefig", "info", "debug"):
            if name not in ("info", "debug", "close"):
                self.event("out", name, st, data=(self.resolve(p, st),) + a + tuple((k, self.resolve(kw[k], st)) for k in sorted(kw)))
            return NONE
        if name == "__setitem__":
            self.set_sub(p, args[0], args[1], st)
            return NONE
        if name == "__getitem__":
            return self.subscript(p, args[0], st)
        r = vt(mk("ext", "." + name, (self.resolve(p, st),) + a + tuple((k, self.resolve(kw[k], st)) for k in sorted(kw))))
        return r

    def removed(self, segs, v):
        # removing a (unique) element: drop identical / filter
        out = []
        for s in segs:
            if s[0] == "e":
                out.append(("e", s[1], gand(s[2], gnot(eq(s[1], v)))))
            elif s[0] == "x":
                out.append(("x", vt(mk("without", asTx(s[1]), v)), s[2]))
            else:
                y = fresh("i")
                b, = open_(s[1], vt(y), s[3])
                out.extend(seg_loop(y, s[2], self.removed(b, v)))
        return norm_segs(out)

    def pop(self, p, t, name, args, st):
        c = st.store.get(("c", t))
        ty = self.typeof(t)
        if c is not None and c[0] == "L" or (ty and ty[0] == "list"):
            for wt, w in self.worklists:
                if wt is t:
                    return w
            segs = self.segs(p, st)
            i = self.live(args[0], st) if args else (ZERO if name == "popleft" else num(-1))
            n = asnum(i)
            v = item(seqv(segs), i)
            if n is not None and segs and all(s[0] == "e" and s[2] is TRUE for s in segs) and -len(segs) <= n < len(segs):
                k = int(n)
                l = list(segs)
                l.pop(k)
                self.set_list(p, st, lambda _: tuple(l))
            elif n == -1 and segs and segs[-1][0] == "e" and segs[-1][2] is TRUE:
                self.set_list(p, st, lambda _: segs[:-1])
            elif n == -1 or all(p is not NONE and nonneg(p) for _, p in pieces(i)):
                def cut(sg):
                    b = seqv_or_x(sg)
                    k = i if n != -1 else add(length(b), num(-1))
                    return norm_segs((("x", slice_(b, ZERO, k), TRUE),) +
                                     ((("x", slice_(b, add(k, ONE), NONE), TRUE),) if n != -1 else ()))
                self.set_list(p, st, cut)
            else:
                self.set_list(p, st, lambda sg: (("x", vt(mk("popped", seqv_or_x(sg), i)), TRUE),))
            return v
        if c is not None and c[0] == "D" or (ty and ty[0] == "dict"):
            v = self.subscript(p, args[0], st)
            if len(args) > 1:
                v = vite(self.contains(p, args[0], st), v, args[1])
            self.set_sub(p, args[0], UNDEF, st, "del")
            return v
        raise Unsupported("pop")

    def str_format(self, p, args, kw, st):
        s = asstr(p)
        if s is None:
            return vt(mk("ext", ".format", (p,) + tuple(self.resolve(a, st) for a in args)))
        out = ()
        pos = 0
        auto = 0
        for m in re.finditer(r"\{\{|\}\}|\{([^{}:!]*)(?:![rs])?(?::([^{}]*))?\}", s):
            out += (("e", string(s[pos:m.start()]), TRUE),)
            pos = m.end()
            if m.group(0) in ("{{", "}}"):
                out += (("e", string(m.group(0)[0]), TRUE),)
                continue
            f = m.group(1)
            if f == "":
                v = args[auto] if auto < len(args) else UNDEF
                auto += 1
            elif f.isdigit():
                v = args[int(f)] if int(f) < len(args) else UNDEF
            elif f in kw:
                v = kw[f]
            else:
                return vt(mk("ext", ".format", (p,)))
            out += tuple(str_parts(self.fmtv(v, m.group(2) or "", st)))
        out += (("e", string(s[pos:]), TRUE),)
        return strv(out)

    def join(self, sep, lst, st):
        segs = self.segs(lst, st)
        sep_ = asstr(sep)
        if sep_ == "":
            return strv(norm_segs(str_segs(segs)))
        if all(s[0] == "e" and s[2] is TRUE for s in segs):
            out = ()
            for i, s in enumerate(segs):
                if i:
                    out += tuple(str_parts(sep))
                out += tuple(str_parts(s[1]))
            return strv(out)
        return strv(self.join_segs(segs, sep, FALSE)[0])

    def join_segs(self, segs, sep, before):
        """text pieces of the elements with the separator in front of all but the first;
        before: guard under which an element came earlier"""
        out = ()
        for s in segs:
            if s[0] == "e":
                out += (("e", sep, gand(s[2], before)),) + tuple(guard_segs_str(s[2], str_parts(s[1])))
                before = gor(before, s[2])
                continue
            y = fresh("i")
            if s[0] == "x":
                hi, g = length(s[1]), s[2]
                b = (("e", item(s[1], vt(y)), g),)
            else:
                hi = s[2]
                b, = open_(s[1], vt(y), s[3])
            core.idx_hi[y] = hi
            k = fresh("i")
            core.idx_hi[k] = vt(y)
            pres = self.seq_fold_ex(b, lambda v: TRUE)
            inner, _ = self.join_segs(b, sep, gor(before, EX(k, vt(y), subst(pres, {y: vt(k)}))))
            out += tuple(seg_loop_str(y, hi, tuple(x for x in inner if x[0] != "e" or x[2] is not FALSE)))
            before = gor(before, EX(y, hi, pres))
        return tuple(x for x in out if x[0] != "e" or x[2] is not FALSE), before

    # ------------------------------------------------------------ aggregates over segments
    def seq_fold_sum(self, segs, f):
        r = ZERO
        for s in segs:
            if s[0] == "e":
                r = add(r, guarded(s[2], f(s[1])))
            elif s[0] == "x":
                y = fresh("i")
                r = add(r, guarded(s[2], SUM(y, length(s[1]), f(item(s[1], vt(y))))))
            else:
                y = fresh("i")
                b, = open_(s[1], vt(y), s[3])
                r = add(r, SUM(y, s[2], self.seq_fold_sum(b, f)))
        return r

    def seq_fold_ex(self, segs, f):
        r = FALSE
        for s in segs:
            if s[0] == "e":
                r = gor(r, gand(s[2], f(s[1])))
            elif s[0] == "x":
                y = fresh("i")
                r = gor(r, gand(s[2], EX(y, length(s[1]), f(item(s[1], vt(y))))))
            else:
                y = fresh("i")
                b, = open_(s[1], vt(y), s[3])
                r = gor(r, EX(y, s[2], self.seq_fold_ex(b, f)))
        return r

    def seq_fold_max(self, segs, init, sign=1):
        r = init
        for s in segs:
            if s[0] == "e":
                v = s[1]
                if r is None:
                    r = v
                    continue
                n = vmax(r, v) if sign > 0 else vmin(r, v)
                r = vite(s[2], n, r)
            else:
                if s[0] == "x":
                    y = fresh("i")
                    hi = length(s[1])
                    v, g = item(s[1], vt(y)), s[2]
                else:
                    y = fresh("i")
                    b, = open_(s[1], vt(y), s[3])
                    hi = s[2]
                    if len(b) != 1 or b[0][0] != "e":
                        if r is None:
                            raise Unsupported("max")
                        # nested loops: fold inside-out with the neutral element
                        inner = self.seq_fold_max(b, neg(vt(mk("inf"))) if sign > 0 else vt(mk("inf")), sign)
                        v, g = inner, TRUE
                    else:
                        v, g = b[0][1], b[0][2]
                if r is None:
                    r = neg(vt(mk("inf"))) if sign > 0 else vt(mk("inf"))
                r = MAXF(y, hi, g, v, r) if sign > 0 else MINF(y, hi, g, v, r)
        return r

    # ------------------------------------------------------------ external functions
    def ext_call(self, n, args, kw, st, e):
        f = getattr(self, "b_" + n.replace(".", "_"), None)
        if f is not None:
            r = f(args, kw, st, e)
            if r is not NotImplemented:
                return r
        a = tuple(self.resolve(x, st) for x in args) + tuple((k, self.resolve(kw[k], st)) for k in sorted(kw))
        if n.startswith(("plt.", "matplotlib.", "networkx.", "nx.", "logging.")) or n == "print":
            return vt(mk("ext", n, a))
        if n in EXC_PARENTS or n in ("Exception", "RuntimeError", "BaseException", "NotImplementedError", "AssertionError", "AttributeError"):
            return vt(mk("exc", n))
        if n in PYTHON or n.startswith(STDLIB):
            return vt(mk("opaque", n, a))
        n_ = 1
        for x in a:
            if isinstance(x, V):
                n_ *= len(pieces(x))
        if n_ == 1 or n_ > 8 or kw:
            return vt(mk("ext", n, a))
        out = None
        for combo in itertools.product(*[pieces(x) for x in a]):
            g = TRUE
            for q, _ in combo:
                g = gand(g, q)
            if g is not FALSE:
                v = vt(mk("ext", n, tuple(x for _, x in combo)))
                out = v if out is None else vite(g, v, out)
        return out

    def prelude(self, name, args, st):
        m = self.pkg.mods.get("sa_prelude")
        if m is None:
            m = self.pkg.add("sa_prelude", os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.py"))
        r = self.call_fn(m.names[name][1], list(args), {}, st, None)
        return NONE if r is None else r

    def b_itertools_chain(self, args, kw, st, e):
        return seqv(norm_segs(tuple(("x", self.resolve(a, st), TRUE) for a in args)))

    def b_itertools_chain_from_iterable(self, args, kw, st, e):
        return self.prelude("chain", args, st)

    def b_itertools_product(self, args, kw, st, e):
        return self.prelude("product2", args, st) if len(args) == 2 and not kw else NotImplemented

    def b_itertools_zip_longest(self, args, kw, st, e):
        return self.prelude("zip_longest2", args, st) if len(args) == 2 and not kw else NotImplemented

    def b_itertools_pairwise(self, args, kw, st, e):
        return self.prelude("pairwise", args, st)

    def b_itertools_accumulate(self, args, kw, st, e):
        return self.prelude("accumulate", args, st) if len(args) == 1 and not kw else NotImplemented

    def b_itertools_repeat(self, args, kw, st, e):
        return self.prelude("repeat2", args, st) if len(args) == 2 else NotImplemented

    def b_len(self, args, kw, st, e):
        return self.len_(args[0], st)

    def len_(self, v, st):
        v = drop_none(self.live(v, st))
        out = []
        for g, p in pieces(v):
            t = asT(p)
            c = st.store.get(("c", t)) if t is not None else None
            if c is not None and c[0] == "L":
                out.append((g, seq_len(c[1])))
            elif t is not None and t.op in ("dvals", "ditems"):
                out.append((g, self.len_(vt(t.args[0]), st)))
            elif c is not None and c[0] == "D" and self.dict_keys(c, ()) is not None:
                out.append((g, seq_len(self.dict_keys(c, ()))))
            else:
                out.append((g, length(self.resolve(p, st))))
        if len(out) == 1:
            return out[0][1]
        return vsum(guarded(g, x) for g, x in out)

    def b_range(self, args, kw, st, e):
        if len(args) == 1:
            lo, hi, k = ZERO, args[0], ONE
        elif len(args) == 2:
            lo, hi, k = args[0], args[1], ONE
        else:
            lo, hi, k = args
        return vmap(lambda a, b, c: vt(mk("range", a, b, c)), self.settle(lo, st), self.settle(hi, st), k)

    def settle(self, v, st):
        """the alternatives of a count that are possible and differ on the current path"""
        ps = pieces(v)
        c = gand(self.cur(st), st.facts)
        if len(ps) <= 1 or len(ps) > 24 or c is TRUE:
            return v
        out = []
        try:
            for g, p in ps:
                x = gand(c, g)
                if x is FALSE or self.theory.feasible(x) is None:
                    continue
                new = []
                for h, q in out:
                    ne = gnot(eq(p, q))
                    if self.theory.feasible(gand(x, ne)) is None:
                        p = q
                    elif self.theory.feasible(gand(gand(c, h), ne)) is not None:
                        new.append((h, q))
                        continue
                    g = gor(g, h)
                    x = gand(c, g)
                out = new + [(g, p)]
        except (Budget, Blowup):
            return v
        if len(out) == len(ps) or not out:
            return v
        if len(out) == 1:
            return out[0][1]
        return vsum(guarded(g, x) for g, x in out)

    def b_int(self, args, kw, st, e):
        if not args:
            return ZERO
        v = unpadded(self.resolve(args[0], st))

        def f(p):
            n = asnum(p)
            if n is not None:
                return num(int(n))
            t = asT(p)
            if self.integral(p):
                return p
            if t is None and self.numeric(p):
                c = gand(gand(self.cur(st), st.facts), lt(p, ZERO))
                try:
                    if c is FALSE or self.theory.feasible(c) is None:
                        return floor_(p)
                except (Budget, Blowup):
                    pass
            if t is not None:
                ty = self.typeof(t)
                if t.op == "s" and norm.whole_text(t.args[0]) is not None:
                    return norm.whole_text(t.args[0])
                if t.op == "attr" and t.args[1] in ("id", "node_id", "zone_id"):
                    return p
                if ty and ty[0] == "str" or ty is None and t.op in ("item", "ext", "fmt", "str", "attr", "get"):
                    self.perr("int", p, st)
                if t.op in ("true",):
                    return ONE
                if t.op == "false":
                    return ZERO
                if t.op == "int":
                    return p
            return vt(mk("int", p))
        return vmap(f, v)

    def numeric(self, p):
        return isplain(p) and not any(isconst_atom(t) for m, cs in p.items for t, e in m)

    def b_float(self, args, kw, st, e):
        if not args:
            return ZERO
        v = unpadded(self.resolve(args[0], st))
        s = asstr(v)
        if s is not None and s.lower() in ("inf", "infinity", "+inf"):
            return vt(mk("inf"))
        if s is not None and s.lower() in ("-inf", "-infinity"):
            return neg(vt(mk("inf")))

        def f(p):
            if asnum(p) is not None:
                return p
            t = asT(p)
            if t is None:
                return p
            ty = self.typeof(t)
            if ty and ty[0] == "num":
                return p
            if ty and ty[0] == "str" or t.op in ("item", "ext", "get"):
                self.perr("float", p, st)
                return vt(mk("float", p))
            return p
        return vmap(f, v)

    def b_str(self, args, kw, st, e):
        if not args:
            return string("")
        return self.fmtv(args[0], "", st)

    b_repr = b_str

    def b_bool(self, args, kw, st, e):
        return fromg(self.truth(args[0], st))

    def b_abs(self, args, kw, st, e):
        return vabs(args[0])

    b_math_fabs = b_abs

    def b_round(self, args, kw, st, e):
        return vt(mk("ext", "round", tuple(args)))

    def b_max(self, args, kw, st, e, sign=1):
        if "key" in kw:
            if len(args) == 1 and len(kw) == 1:
                return self.prelude("max_by" if sign > 0 else "min_by", [args[0], kw["key"]], st)
            return NotImplemented
        if len(args) == 1:
            segs = self.segs(args[0], st)
            init = kw.get("default")
            return self.seq_fold_max(segs, init, sign)
        r = args[0]
        for x in args[1:]:
            r = vmax(r, x) if sign > 0 else vmin(r, x)
        return r

    def b_min(self, args, kw, st, e):
        return self.b_max(args, kw, st, e, -1)

    def b_sum(self, args, kw, st, e):
        segs = self.segs_iter(args[0], st)
        r = self.seq_fold_sum(segs, lambda v: v)
        if len(args) > 1:
            r = add(r, args[1])
        return r

    b_math_fsum = b_sum
    b_numpy_sum = b_sum

    def segs_iter(self, v, st):
        """segments of any iterable (dict views included)"""
        t = asT(v)
        if t is not None and t.op in ("dvals", "ditems"):
            d0 = vt(t.args[0])

            def f(k):
                x = self.subscript(d0, k, st)
                return vt(mk("tup", k, x)) if t.op == "ditems" else x

            def go(segs):
                out = ()
                for s in segs:
                    if s[0] == "e":
                        out += (("e", f(s[1]), s[2]),)
                    elif s[0] == "x":
                        y = fresh("i")
                        core.idx_hi[y] = length(s[1])
                        out += guard_segs(s[2], seg_loop(y, length(s[1]), (("e", f(item(s[1], vt(y))), TRUE),)))
                    else:
                        y = fresh("i")
                        core.idx_hi[y] = s[2]
                        b, = open_(s[1], vt(y), s[3])
                        out += seg_loop(y, s[2], go(b))
                return out
            return go(self.segs(d0, st))
        return self.segs(v, st)

    def b_any(self, args, kw, st, e):
        return fromg(self.seq_fold_ex(self.segs_iter(args[0], st), lambda v: self.truth(v, st)))

    def b_all(self, args, kw, st, e):
        return fromg(gnot(self.seq_fold_ex(self.segs_iter(args[0], st), lambda v: gnot(self.truth(v, st)))))

    def b_list(self, args, kw, st, e):
        if not args:
            return self.newlist(e, st, ())
        return self.newlist(e, st, self.segs_iter(args[0], st))

    def b_tuple(self, args, kw, st, e):
        if args and self.tuples(args[0]):
            return args[0]
        return self.b_list(args, kw, st, e)

    def b_set(self, args, kw, st, e):
        if not args:
            return self.newlist(e, st, ())
        segs = self.segs_iter(args[0], st)
        return vt(mk("uniq", seqv_or_x(segs)))

    b_frozenset = b_set

    def b_collections_deque(self, args, kw, st, e):
        return self.b_list(args, kw, st, e)

    def dict_content(self, v, st):
        t = asT(self.live(v, st))
        c = st.store.get(("c", t)) if t is not None else None
        return c if c is not None and c[0] == "D" else None

    def b_dict(self, args, kw, st, e):
        ws = tuple(("w", (string(k),), kw[k], "set", TRUE) for k in kw)
        if args:
            if self.listlike(args[0], st):
                d = self.newdict(e, st, ("dict", None, None), ws)
                self.prelude("pairs_update", [d, args[0]], st)
                return d
            c = self.dict_content(args[0], st)
            if c is not None:
                return self.newdict(e, st, self.vtype(args[0]) or ("dict", None, None), c[2] + ws, c[1])
            d = self.resolve(args[0], st)
            return self.newdict(e, st, self.vtype(args[0]) or ("dict", None, None), ws, asTx(d))
        return self.newdict(e, st, ("dict", None, None), ws)

    b_collections_OrderedDict = b_dict

    def b_collections_defaultdict(self, args, kw, st, e):
        ty = ("dict", None, None)
        if e is not None and isinstance(e, ast.Call):
            ty = self.default_type(args[0], st) if args else ("dict", None, None)
        d = self.newdict(e, st, ty)
        if len(args) > 1 or kw:
            src = [args[1]] if len(args) > 1 else []
            if kw:
                src.append(self.b_dict([], kw, st, None))
            for x in src:
                self.prelude("pairs_update" if self.listlike(x, st) else "dict_update", [d, x], st)
        return d

    def b_collections_Counter(self, args, kw, st, e):
        return NotImplemented

    def default_type(self, f, st):
        t = asT(f)
        if t is None or f is NONE:
            return ("dict", None, None)
        if t.op == "extname":
            n = t.args[0]
            return ("dict", None, {"float": ("num",), "int": ("num",), "list": ("list", None), "dict": ("dict", None, None),
                                   "str": ("str",), "set": ("list", None), "bool": ("bool",)}.get(n))
        if t.op == "fn":
            nd, mod, cls, env = self.fns[t]
            body = None
            if isinstance(nd, ast.Lambda):
                body = nd.body
            else:
                rs = [s for s in ast.walk(nd) if isinstance(s, ast.Return)]
                if len(rs) == 1:
                    body = rs[0].value
            if body is not None:
                vty = self.value_type(body, mod)
                return ("dict", None, vty)
        return ("dict", None, None)

    def b_pandas_DataFrame(self, args, kw, st, e):
        kw = dict(kw)
        data = args[0] if args else kw.pop("data", None)
        cols = args[1] if len(args) > 1 else kw.pop("columns", None)
        if kw or len(args) > 2:
            return NotImplemented
        if data is None or data is NONE:
            if cols is not None and cols is not NONE:
                return NotImplemented
            return self.newdict(e, st, ("dict", None, None))
        c = self.dict_content(data, st)
        if c is not None and cols is None:
            # a table from its columns
            return self.newdict(e, st, ("dict", None, ("list", None)), c[2], c[1])
        d = self.resolve(data, st)
        t = asT(d)
        rows = t.args if t is not None and t.op == "seq" else t.args if t is not None and t.op == "tup" else None
        if t is not None and t.op == "tup":
            rows = tuple(("e", x, TRUE) for x in t.args)
        if rows is None:
            if cols is not None:
                return NotImplemented
            return self.newdict(e, st, ("dict", None, ("list", None)), (), t if t is not None else asTx(d))
        if cols is not None and cols is not NONE:
            c = asT(self.resolve(cols, st))
            names = [x[1] for x in c.args if x[0] == "e" and x[2] is TRUE] if c is not None and c.op == "seq" else \
                list(c.args) if c is not None and c.op == "tup" else []
            if not names:
                return NotImplemented
            pick = [lambda r, k=k: item(r, num(k)) for k in range(len(names))]
        else:
            names = self.row_keys(rows)
            if not names:
                return NotImplemented
            pick = [lambda r, k=k: get(r, k) for k in names]
        ws = [("w", (n,), seqv(seq_map(rows, f)), "set", TRUE) for n, f in zip(names, pick)]
        return self.newdict(e, st, ("dict", None, ("list", None)), ws)

    def row_keys(self, rows):
        """keys of rows that are all dicts with the same literal keys"""
        keys = None
        for s in rows:
            if s[0] == "l":
                k = self.row_keys(s[3])
            elif s[0] == "e":
                t = asT(s[1])
                if t is None or t.op != "map":
                    return None
                k = literal_keys(t)
            else:
                return None
            if k is None or keys is not None and k != keys:
                return None
            keys = k
        return keys

    def b_isinstance(self, args, kw, st, e):
        ct = asT(args[1])
        names = []
        if ct is None:
            return NotImplemented
        if ct.op == "tup":
            names = [asT(x) for x in ct.args]
        else:
            names = [ct]
        v = self.live(args[0], st)

        def f(p):
            return gany(self.isa(p, c) for c in names)
        return fromg(gmap(f, v))

    def isa(self, p, c, tag=False):
        if c is None:
            return gatom(mk("opaque", "isa", p))
        n = asnum(p)
        cn = c.args[0] if c.op in ("cls", "extname") else None
        if n is not None:
            if cn == "int":
                return TRUE if n.denominator == 1 else FALSE
            if cn == "float":
                return FALSE if n.denominator == 1 else TRUE
            return FALSE
        t = asT(p)
        if t is None:
            if cn in ("int", "float"):
                return gatom(mk("isa", mk("val", p), cn))
            return FALSE
        if t.op == "none":
            return FALSE
        if t.op in ("s", "str", "fmt"):
            return TRUE if cn == "str" else FALSE
        if t.op in ("true", "false"):
            return TRUE if cn in ("bool", "int") else FALSE
        k = self.objcls.get(t)
        if t.op == "New":
            k = self.pkg.classes.get(t.args[0])
        if k is not None:
            if c.op == "cls":
                return TRUE if (k.name == cn if tag else self.pkg.subclass(k, cn)) else FALSE
            return FALSE
        if t.op in ("seq", "obj"):
            if cn == "list":
                return TRUE
            return FALSE
        if t.op == "sel":
            vv = t.args[3]
        if c.op == "cls" and cn in self.pkg.classes:
            if tag:
                return self.exact(t, cn)
            ty = self.typeof(t)
            if ty and ty[0] in ("num", "str", "list", "dict", "bool", "tup") and not (t.op == "sym" and t.args[0] == "p"):
                return FALSE
            return gany(self.exact(t, x) for x in self.concrete(cn))
        return gatom(mk("isa", t, cn))

    def b_type(self, args, kw, st, e):
        if len(args) == 1:
            t = asT(args[0])
            if t is not None:
                k = self.objcls.get(t) or (self.pkg.classes.get(t.args[0]) if t.op == "New" else None)
                if k:
                    return vt(mk("cls", k.name))
            return vt(mk("typeof", args[0]))
        return NotImplemented

    def b_getattr(self, args, kw, st, e):
        n = asstr(args[1])
        if n is None:
            raise Unsupported("getattr")
        return self.read_attr(args[0], n, st)

    def b_setattr(self, args, kw, st, e):
        n = asstr(args[1])
        if n is None:
            raise Unsupported("setattr")
        self.write_attr(args[0], n, args[2], st)
        return NONE

    def b_property(self, args, kw, st, e):
        a = list(args) + [NONE, NONE]
        return vt(mk("property", kw.get("fget", a[0]), kw.get("fset", a[1])))

    def b_operator_attrgetter(self, args, kw, st, e):
        n = asstr(args[0])
        if n is None:
            raise Unsupported("attrgetter")
        return vt(mk("attrgetter", n))

    def b_operator_lt(self, args, kw, st, e):
        return fromg(lt(args[0], args[1]))

    def b_operator_le(self, args, kw, st, e):
        return fromg(le(args[0], args[1]))

    def b_operator_gt(self, args, kw, st, e):
        return fromg(lt(args[1], args[0]))

    def b_operator_ge(self, args, kw, st, e):
        return fromg(le(args[1], args[0]))

    def b_operator_eq(self, args, kw, st, e):
        return fromg(eq(args[0], args[1]))

    def b_operator_ne(self, args, kw, st, e):
        return fromg(gnot(eq(args[0], args[1])))

    def b_functools_partial(self, args, kw, st, e):
        return vt(mk("partial", *args))

    def b_math_sqrt(self, args, kw, st, e):
        return power(args[0], Fraction(1, 2))

    def b_math_hypot(self, args, kw, st, e):
        r = ZERO
        for a in args:
            r = add(r, mul(a, a))
        return power(r, Fraction(1, 2))

    def b_math_dist(self, args, kw, st, e):
        a, b = asT(args[0]), asT(args[1])
        if a is not None and b is not None and a.op == "tup" and b.op == "tup":
            r = ZERO
            for x, y in zip(a.args, b.args):
                d = sub(x, y)
                r = add(r, mul(d, d))
            return power(r, Fraction(1, 2))
        return NotImplemented

    def b_math_pow(self, args, kw, st, e):
        return self.binop("**", args[0], args[1], st, e)

    b_pow = b_math_pow

    def b_math_cos(self, args, kw, st, e):
        return vmap(lambda p: ONE if p is ZERO else vt(mk("ext", "math.cos", (neg(p) if core._lead(p) < 0 else p,))), self.resolve(args[0], st))

    def b_math_sin(self, args, kw, st, e):
        def f(p):
            if p is ZERO:
                return ZERO
            k = core._lead(p)
            r = vt(mk("ext", "math.sin", (neg(p) if k < 0 else p,)))
            return neg(r) if k < 0 else r
        return vmap(f, self.resolve(args[0], st))

    def b_math_radians(self, args, kw, st, e):
        return mul(args[0], div(vt(mk("extname", "math.pi")), num(180)))

    def b_math_degrees(self, args, kw, st, e):
        return mul(args[0], div(num(180), vt(mk("extname", "math.pi"))))

    def b_math_floor(self, args, kw, st, e):
        return self.floor(args[0])

    def b_math_ceil(self, args, kw, st, e):
        return neg(self.floor(neg(args[0])))

    def b_math_isinf(self, args, kw, st, e):
        inf = vt(mk("inf"))
        return fromg(gor(eq(args[0], inf), eq(args[0], neg(inf))))

    def b_print(self, args, kw, st, e):
        return NONE

    def b_open(self, args, kw, st, e):
        mode = kw.get("mode", args[1] if len(args) > 1 else string("r"))
        return vt(mk("file", self.resolve(args[0], st), mode))

    def b_reversed(self, args, kw, st, e):
        segs = self.segs_iter(args[0], st)
        r = seq_rev(segs)
        if r is None:
            return rev_(seqv(segs))
        return seqv(norm_segs(r))

    def b_sorted(self, args, kw, st, e):
        a = (self.resolve(args[0], st),) + tuple((k, kw[k] if not isinstance(kw[k], V) or "fn" not in kw[k].ops else string("fn"))
                                                 for k in sorted(kw))
        if "key" in kw and kw["key"] is not NONE:
            keys = self.prelude("each", [args[0], kw["key"]], st)
            return vt(mk("opaque", "sorted", (self.resolve(args[0], st), self.resolve(keys, st)) + tuple((k, kw[k]) for k in sorted(kw) if k != "key")))
        r = mk("ext", "sorted", a)
        return vt(r)

    def b_enumerate(self, args, kw, st, e):
        start = kw.get("start", args[1] if len(args) > 1 else ZERO)
        return vt(mk("enumerate", args[0], start))

    def b_zip(self, args, kw, st, e):
        return vt(mk("zip", *args))

    def b_map(self, args, kw, st, e):
        lst = self.newlist(e, st, ())
        f = args[0]
        if len(args) != 2:
            raise Unsupported("map")

        def body(s, v):
            self.append(lst, self.call_value(f, [v], {}, s, e), s)
        self.iterate(e, args[1], body, st)
        return lst

    def b_filter(self, args, kw, st, e):
        lst = self.newlist(e, st, ())

        def body(s, v):
            g = self.truth(v if args[0] is NONE else self.call_value(args[0], [v], {}, s, e), s)
            self.branch(g, s, lambda s2: self.append(lst, v, s2), lambda s2: None)
        self.iterate(e, args[1], body, st)
        return lst

    def b_next(self, args, kw, st, e):
        segs = self.segs_iter(args[0], st)
        d = args[1] if len(args) > 1 else None
        r = self.first(segs)
        if r is None:
            raise Unsupported("next")
        g, v = r
        if d is None:
            return v
        return vite(g, v, d)

    def first(self, segs):
        g, v = FALSE, None
        for s in reversed(segs):
            if s[0] == "e":
                v = s[1] if v is None else vite(s[2], s[1], v)
                g = gor(s[2], g)
            elif s[0] == "x":
                ge = gand(s[2], gnot(eq(length(s[1]), ZERO)))
                x = item(s[1], ZERO)
                v = x if v is None else vite(ge, x, v)
                g = gor(ge, g)
            else:
                y = fresh("i")
                b, = open_(s[1], vt(y), s[3])
                r = self.first(b)
                if r is None:
                    return None
                ge, x = EX(y, s[2], r[0]), SEL(y, s[2], r[0], r[1])
                v = x if v is None else vite(ge, x, v)
                g = gor(ge, g)
        return None if v is None else (g, v)

    def b_iter(self, args, kw, st, e):
        return args[0]

    def b_numpy_array(self, args, kw, st, e):
        return args[0]

    b_numpy_asarray = b_numpy_array

    def b_logging_getLogger(self, args, kw, st, e):
        return vt(mk("ext", "logger", ()))


def asTx(v):
    t = asT(v)
    return t if t is not None else mk("val", v)


def seqv_or_x(segs):
    if len(segs) == 1 and segs[0][0] == "x" and segs[0][2] is TRUE:
        return segs[0][1]
    return seqv(segs)


def fromnum(g):
    return guarded(g, ONE)


def str_segs(segs):
    out = []
    for s in segs:
        if s[0] == "e":
            out.extend(guard_segs_str(s[2], str_parts(s[1])))
        elif s[0] == "l":
            y = fresh("i")
            b, = open_(s[1], vt(y), s[3])
            out.extend(seg_loop_str(y, s[2], str_segs(b)))
        else:
            y = fresh("i")
            out.extend(guard_segs_str(s[2], seg_loop_str(y, length(s[1]), str_parts(item(s[1], vt(y))))))
    return tuple(out)


def seg_loop_str(y, hi, parts):
    parts = tuple(norm_str(list(parts)))
    if not parts:
        return ()
    g = norm.segs_guard(parts)
    if y in g.free:
        y, hi, g, parts = norm.shrunk(y, hi, g, parts)
        parts = tuple(norm_str(list(parts)))
        if not parts:
            return ()
    h, (b,) = bind(y, parts)
    return (("l", h, hi, b),)
