"""Obligations: probe functions (client code of the package) against specification functions.

Both are analysed by the same engine; neither is ever executed.
"""
import ast
import os
import signal
import time
from .core import *
from . import core, norm
from .norm import *
from .pkg import Package
from .interp import State, Unsupported, Ev
from .stmt import Engine
from .cmp import Cmp, EQ, D, U, cube_text
from .theory import Budget

VC = ["Node", "CBD", "Periphery", "Subcenter", "Zone", "Edge", "Route", "CityNode", "StopNode", "RouteNode",
      "ExtendedEdge", "ExtendedNode"]


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Result:
    def __init__(self, name, verdict, msg="", info=None):
        self.name, self.verdict, self.msg, self.info = name, verdict, msg, info or {}


class Side:
    pass


def reset_tables():
    for d in (core._tt, core._gt, core._vt, core._ite, core.idx_hi, core._sibs, core._family, core._restr):
        d.clear()


class Runner:
    def __init__(self, repo, specfile, value_classes=None):
        self.pkg = Package(repo, "sidermit")
        self.spec = self.pkg.add("spec_" + os.path.basename(specfile)[:-3], specfile)
        for x in list(self.spec.names.values()):
            f = os.path.join(os.path.dirname(specfile), x[1] + ".py") if x[0] == "imp" else ""
            if x[0] == "imp" and x[1] not in self.pkg.mods and os.path.exists(f):
                self.pkg.add(x[1], f)
        self.opts = {}
        for n, x in self.spec.names.items():
            if x[0] == "var" and n.isupper():
                try:
                    self.opts[n] = ast.literal_eval(x[1])
                except ValueError:
                    pass
        self.vc = [c for c in (value_classes or VC) if c in self.pkg.classes]
        self.analysed = set()
        self.nodes = 0

    def names(self):
        ps = [n[6:] for n, x in self.spec.names.items() if n.startswith("probe_") and x[0] == "fn"]
        return ps

    def engine(self, name):
        at = tuple(self.opts.get("ATOMIC", ())) + tuple(self.opts.get("ATOMIC_FOR", {}).get(name, ()))
        vc = [c for c in self.vc if c not in self.opts.get("OBJECTS", ())]
        e = Engine(self.pkg, atomic=at, value_classes=vc)
        e.maxnodes = self.opts.get("MAXNODES", 400000)
        e.while_limit = self.opts.get("WHILE", {}).get(name, 0)
        # methods replaced by what another property establishes about them
        for q, fn in {**self.opts.get("STUB", {}), **self.opts.get("STUB_FOR", {}).get(name, {})}.items():
            e.stubs[q] = self.pkg.resolve(self.spec, fn)[1]
        # methods of library objects, described by a spec function taking the object first
        for q, fn in {**self.opts.get("METHOD", {}), **self.opts.get("METHOD_FOR", {}).get(name, {})}.items():
            e.mstubs[q] = self.pkg.resolve(self.spec, fn)[1]
        # numbering established by another property: getter of a list -> attribute holding position + 1
        e.divzero = name in self.opts.get("DIVZERO", ())
        norm.ranked.clear()
        for q, a in self.opts.get("RANKED", {}).items():
            c, m = q.split(".")
            c = self.pkg.classes[c]
            for s in ast.walk(self.pkg.method(c, m).node):
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Attribute):
                    norm.ranked |= {(a, 1), (a, e.mangle(s.value.attr, c))}
        return e

    def run(self, eng, fn, params=None):
        core.finite.clear()
        fin = self.opts.get("FINITE", ())
        f = self.pkg.resolve(self.spec, fn)[1]
        st = State()
        args = []
        eng.events = []
        eng.loops = ()
        for a in f.node.args.args:
            p = mk("param", a.arg)
            ty = eng.parse_type(a.annotation, self.spec)
            if ty:
                eng.ptype[p] = ty
            if ty and (ty[0] in ("list", "dict") and isinstance(a.annotation, ast.Subscript) or ty[0] == "inst"):
                eng.given.add(p)
            if a.arg in fin:
                core.finite.add(p)
            if isinstance(a.annotation, ast.Name) and a.annotation.id == "bool":
                args.append(fromg(gatom(p)))
            else:
                args.append(vt(p))
        eng.fstack = [(self.spec, None, "<top>")]
        eng.fns_seen = set()
        s = Side()
        r = eng.call_fn(f, args, {}, st, None)
        if r is None:
            r = NONE
        s.st = st
        s.dead = st.dead
        s.ret = eng.freeze(r, st)
        s.events = list(eng.events)
        return s

    def one(self, name, limit=240):
        t0 = time.time()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            eng = self.engine(name)
            a = self.run(eng, "probe_" + name)
            self.analysed |= {x for x in eng.analysed if not x.startswith(("probe_", "spec_"))}
            n1 = eng.nodes
            eng.changed_cache = {}
            b = self.run(eng, "spec_" + name)
            self.nodes += n1
            r = self.compare(name, a, b)
            r.info["nodes"] = n1
        except (Unsupported, Blowup, Budget, RecursionError) as e:
            r = Result(name, "U", "%s: %s" % (type(e).__name__, e))
        except Timeout:
            r = Result(name, "U", "time limit")
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
            if os.environ.get("SA_DEBUG"):
                raise
            r = Result(name, "U", "internal: %s %s" % (type(e).__name__, e))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        r.info["seconds"] = round(time.time() - t0, 2)
        return r

    # ------------------------------------------------------------ comparison
    def close(self, e):
        g = e.g
        for s, hi in reversed(e.loops):
            core.idx_hi[s] = hi
            g = EX(s, hi, g)
        return g

    def regions(self, evs):
        """[(class, first-wins region)], any-order regions, union"""
        first, anyo = {}, {}
        un = FALSE
        for e in evs:
            if e.kind != "raise":
                continue
            g = self.close(e)
            anyo[e.what] = gor(anyo.get(e.what, FALSE), g)
            f = gand(g, gnot(un))
            if f is not FALSE:
                first[e.what] = gor(first.get(e.what, FALSE), f)
            un = gor(un, g)
        return first, anyo, un

    def compare(self, name, a, b):
        cmp = Cmp(self.pkg)
        fa, aa, ua = self.regions(a.events)
        fb, ab, ub = self.regions(b.events)
        loose = name in self.opts.get("ANY_ERROR", ())
        info = {"raises": sum(1 for e in a.events if e.kind == "raise")}
        r = cmp.g(ua, ub)
        if r is not EQ:
            return Result(name, r[0], "rejected inputs differ: " + r[1], info)
        if not loose:
            for c in sorted(set(fa) | set(ab)):
                x = fa.get(c, FALSE)
                if x is FALSE:
                    continue
                r = self.covered(cmp, x, ab.get(c, FALSE))
                if r is not EQ:
                    return Result(name, r[0], "raises %s where the specification does not: %s" % (c, r[1]), info)
            for c in sorted(fb):
                r = self.covered(cmp, fb[c], aa.get(c, FALSE))
                if r is not EQ:
                    return Result(name, r[0], "does not raise %s where the specification does: %s" % (c, r[1]), info)
        if name in self.opts.get("ATOMIC_PROBES", ()):
            w = self.atomicity(cmp, a)
            if w:
                return Result(name, "D", w, info)
        if a.dead and b.dead:
            return Result(name, "=", "", info)
        ctx = gnot(ub)
        cmp.base = gsupp(ua) | gsupp(ub)
        r = cmp.v(a.ret, b.ret, ctx)
        info["terms"] = cmp.n
        if r is not EQ:
            return Result(name, r[0], "result differs: " + r[1], info)
        return Result(name, "=", "", info)

    def covered(self, cmp, x, y):
        """x implies y"""
        if implies(x, y):
            return EQ
        return cmp.g(gand(x, y), x)

    def atomicity(self, cmp, a):
        ws = []
        for e in a.events:
            if e.kind == "write":
                ws.append(e)
            elif e.kind == "raise":
                g = self.close(e)
                for w in ws:
                    x = gand(g, self.close(w))
                    c = cmp.th.feasible(x)
                    if c is not None:
                        return "%s:%d modifies state and %s can still be raised at line %d when %s" % (
                            os.path.basename(w.where[0]), w.where[1], e.what, e.where[1], cube_text(c))
        return None
