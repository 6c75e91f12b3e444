"""Rule-based parts: effects, escapes, exceptions."""
import ast
import os
import time

from .effects import CACHES, Effects, mutable_expr, params
from .oblig import Result
from .pkg import Package

TECH = {
    "C34": "static analysis: exception-flow rules over the syntax tree and call graph (class hierarchy, raise sites, handlers)",
    "C35": "static analysis: interprocedural side-effect (mod) analysis with object tokens",
    "C36": "static analysis: interprocedural escape and aliasing analysis of shared objects",
}
NOTE = {
    "C34": "Every raise and handler of the package is resolved through the class hierarchy and value flow; unresolved operands are counted as undecided.",
    "C35": "Summaries over-approximate what each public evaluation or query function may write; containers returned by libraries are taken as new objects.",
    "C36": "Every default argument, class-level and module-level object and cache of the package is tracked to writes and escapes.",
}

_cache = {}


def model(repo):
    if repo not in _cache:
        p = Package(repo, "sidermit")
        e = Effects(p)
        _cache[repo] = (p, e)
    return _cache[repo]


def rel(m):
    return m.path.split("/sidermit/")[-1]


def done(name, bad, unk, n, what, t0):
    info = {"seconds": time.time() - t0, "checked": n, "what": what}
    if bad:
        return Result(name, "D", "; ".join(bad[:6]), info)
    if unk:
        return Result(name, "U", "; ".join(unk[:4]), info)
    return Result(name, "=", "%d %s" % (n, what), info)


def functions(pkg):
    for m in pkg.mods.values():
        for x in list(m.names.values()):
            if x[0] == "fn":
                yield x[1]
            elif x[0] == "cls":
                yield from x[1].methods.values()


# ---------------------------------------------------------------- C35
# what may change, and what changes it: everything else is an evaluation or a query
MUTATORS = {
    "Demand": {"change_vij"},
    "Graph": set(),
    "TransportMode": {"name", "bya", "theta"},
    "TransportModeManager": {"add_mode", "remove_mode"},
    "TransportNetwork": {"add_transport_mode", "remove_transport_mode", "add_route", "remove_route"},
}
IMPURE = ("random", "time", "datetime", "uuid", "secrets")
STATE = {"p": "its argument", "e": "what its argument holds", "s": "self.", "t": "what is held by self."}


def public(n):
    return not n.startswith("_") or n.startswith("__") and n.endswith("__")


def rule_C35(repo, here, only=None):
    pkg, eff = model(repo)
    t0 = time.time()
    groups = {}
    for f in eff.fns:
        if f.cls is not None and (pkg.isexc(f.cls) or f.cls.isenum):
            continue
        groups.setdefault(f.cls.name if f.cls else f.mod.name.split(".")[-1], []).append(f)
    results = []
    for g, fs in sorted(groups.items()):
        name = "writes_" + g
        if only and name not in only:
            continue
        bad, unk, n = [], [], 0
        for f in fs:
            if not public(f.name):
                continue
            n += 1
            may = f.name == "__init__" or f.setter or f.name in MUTATORS.get(g, ()) or f.name in ("__setattr__", "__delattr__")
            for t, (kind, w) in sorted(eff.sums[f].mut.items()):
                if t[0] in "st" and may or t == ("p", "self") and may:
                    continue
                if t[0] in "dgh":
                    continue
                if t[0] in "st" and memo(eff, f, t[1]):
                    unk.append("%s keeps something in self.%s at %s" % (f.qual, t[1], w))
                    continue
                bad.append("%s modifies %s%s%s at %s" % (f.qual, STATE[t[0]], "" if t[0] in "st" else " ", t[1], w))
            for u in eff.unknown.get(f, ()):
                unk.append(u)
        results.append(done(name, bad, unk, n, "functions write neither their arguments nor the model", t0))
    if not only or "pure" in only:
        bad, n = [], 0
        for m in pkg.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call):
                    n += 1
                    d = dotted(x.func)
                    r = pkg.resolve(m, d[0]) if d else None
                    full = ".".join([r[1]] + d[1:]) if r and r[0] in ("mod", "ext") and isinstance(r[1], str) else None
                    if full and (full.split(".")[0] in IMPURE or ".random." in full + "." and full.split(".")[0] in ("numpy", "np")) \
                            and full != "time.sleep":
                        bad.append("%s:%d calls %s" % (rel(m), x.lineno, full))
        results.append(done("pure", bad, [], n, "calls, none to a clock or a random source", t0))
    return results, {f.qual for f in eff.fns}, sum(1 for f in eff.fns for _ in ast.walk(f.node) if isinstance(_, ast.stmt))


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return [e.id] + out[::-1]
    return None


def memo(eff, f, attr):
    """an attribute no other function reads: a private note of this function"""
    for m in eff.pkg.mods.values():
        for g in eff.fns:
            if g.mod is not m or g is f:
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and x.attr == attr and (isinstance(x.ctx, ast.Load) or g.name != "__init__"):
                    return False
    return attr.startswith("_")


# ---------------------------------------------------------------- C36
def rule_C36(repo, here, only=None):
    pkg, eff = model(repo)
    t0 = time.time()
    results = []
    ndef = sum(len(f.node.args.defaults) + len([d for d in f.node.args.kw_defaults if d is not None]) for f in eff.fns)
    kinds = {"d": [], "g": []}
    for f in eff.fns:
        s = eff.sums[f]
        for t, (kind, w) in sorted(s.mut.items()):
            if t[0] in "dgh":
                kinds["d" if t[0] == "d" else "g"].append("%s is modified at %s" % (label(t), w))
        for t in sorted(t for t in s.ret | s.cont if t[0] in "dgh"):
            if t[0] in "dgh":
                kinds["d" if t[0] == "d" else "g"].append("%s is handed out by %s" % (label(t), f.qual))
        for k, vs in sorted(s.puts.items()):
            for t in sorted(vs):
                if t[0] in "dgh" and k[0] != "n":
                    kinds["d" if t[0] == "d" else "g"].append("%s becomes part of %s in %s" % (
                        label(t), "self." + k[1] if k[0] in "stb" else k[1], f.qual))
    results.append(done("defaults", sorted(set(kinds["d"])), [], ndef, "default arguments, none shared between calls", t0))
    ncls = sum(len(c.consts) for c in pkg.classes.values())
    nmod = sum(1 for m in pkg.mods.values() for x in m.names.values() if x[0] == "var")
    results.append(done("class_and_module_objects", sorted(set(kinds["g"])), [], ncls + nmod,
                        "class- and module-level values, none modified or handed out", t0))
    # caches
    bad, unk, n = [], [], 0
    for f in eff.fns:
        n += 1
        for d in f.node.decorator_list:
            nm = dotted(d.func if isinstance(d, ast.Call) else d)
            if nm and nm[-1] in CACHES:
                s = eff.sums[f]
                if any(t[0] != "n" for t in s.ret) or s.kinds - {"bin", "tuple"} or s.cont:
                    bad.append("%s keeps its result and hands out the same object again (%s:%d)" % (f.qual, rel(f.mod), f.node.lineno))
    results.append(done("caches", bad, unk, n, "functions, none caching a mutable result", t0))
    # state captured by the accessors a factory builds at class level
    bad, n = [], 0
    outer = set()
    for m in pkg.mods.values():
        for x in toplevel_calls(m.tree):
            d = dotted(x.func)
            r = pkg.resolve(m, d[0]) if d and len(d) == 1 else None
            if r and r[0] == "fn":
                outer.add(r[1])
    for f in sorted(outer, key=lambda f: f.qual):
        n += 1
        for t, w in sorted(eff.sums[f].captured.items(), key=str):
            bad.append("the inner functions of %s keep state of all objects at %s" % (f.qual, w))
        for x in ast.walk(f.node):
            if isinstance(x, ast.Nonlocal):
                bad.append("the inner functions of %s keep state in %s" % (f.qual, ", ".join(x.names)))
    results.append(done("factories", bad, [], n, "accessor factories, none keeping state of its own", t0))
    if only:
        results = [r for r in results if r.name in only]
    return results, {f.qual for f in eff.fns}, sum(1 for f in eff.fns for _ in ast.walk(f.node) if isinstance(_, ast.stmt))


def label(t):
    if t[0] == "d":
        return "the default object of %s" % t[1]
    return "%sthe shared object %s" % ("what is in " if t[0] == "h" else "", t[1])


def toplevel_calls(tree):
    """calls evaluated when a module or class body runs"""
    todo = list(tree.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += s.decorator_list
            continue
        if isinstance(s, ast.Call):
            yield s
        todo += [c for c in ast.iter_child_nodes(s) if not isinstance(c, ast.Lambda)]


# ---------------------------------------------------------------- C34
BRANCH = {
    "city/demand.py": {"DemandException", "GraphException"},
    "city/graph.py": {"GraphException"},
    "publictransportsystem/mode.py": {"TransportModeException", "TransportNetworkException"},
    "publictransportsystem/passenger.py": {"TransportUserException"},
    "publictransportsystem/network.py": {"TransportNetworkException", "TransportModeException", "GraphException"},
    "optimization/optimizer.py": {"OptimizerException", "TransportNetworkException", "HyperpathException"},
    "optimization/preoptimization/hyper_path.py": {"HyperpathException", "TransportNetworkException"},
}
ROOT = "SIDERMITException"


class Exc:
    def __init__(self, pkg):
        self.pkg = pkg
        self.calls = None

    def branch(self, c):
        """the direct subclass of the root above c; None when c is not a library error"""
        names = [x.name for x in self.pkg.mro(c)]
        if ROOT not in names:
            return None
        for x in self.pkg.mro(c):
            if ROOT in x.bases:
                return x.name
        return ROOT

    def callsites(self):
        if self.calls is None:
            self.calls = {}
            for m in self.pkg.mods.values():
                self.visit(m, m.tree, None, None)
        return self.calls

    def visit(self, m, node, cls, fn):
        for c in ast.iter_child_nodes(node):
            k, g = cls, fn
            if isinstance(c, ast.ClassDef):
                k, g = c.name, None
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = c if fn is None else fn
            elif isinstance(c, ast.Call):
                d = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                if d:
                    self.calls.setdefault(d, []).append((m, fn, c))
            self.visit(m, c, k, g)

    def types(self, e, m, fn, depth=0):
        """classes (or names of builtin classes) of the exceptions an expression denotes; None when unresolved"""
        if depth > 6:
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ("with_traceback",):
                return self.types(f.value, m, fn, depth + 1)
            r = self.ref(f, m)
            if r is not None and r[0] == "cls":
                return {r[1]}
            if r is not None and r[0] == "builtin":
                return {r[1]}
            g = self.func(f, m)
            if g:
                out = set()
                for h in g:
                    rets = [x.value for x in ast.walk(h.node) if isinstance(x, ast.Return) and x.value is not None]
                    if not rets:
                        return None
                    for v in rets:
                        t = self.types(v, h.mod, h.node, depth + 1)
                        if t is None:
                            return None
                        out |= t
                return out
            t = self.types(f, m, fn, depth + 1)
            return t
        if isinstance(e, ast.IfExp):
            return self.union([e.body, e.orelse], m, fn, depth)
        if isinstance(e, ast.BoolOp):
            return self.union(e.values, m, fn, depth)
        if isinstance(e, ast.Subscript):
            return self.elements(e.value, m, fn, depth)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.ref(e, m) if not (isinstance(e, ast.Name) and fn is not None and local(fn, e.id)) else None
            if r is not None and r[0] in ("cls", "builtin"):
                return {r[1]}
            if r is not None and r[0] == "var":
                return self.types(r[1], r[2], None, depth + 1)
            if isinstance(e, ast.Name) and fn is not None:
                return self.flow(e.id, m, fn, depth)
            if isinstance(e, ast.Attribute):
                vs = [(mm, x.value) for mm in self.pkg.mods.values() for x in ast.walk(mm.tree) if isinstance(x, ast.Assign)
                      and any(isinstance(t, ast.Attribute) and t.attr == e.attr for t in x.targets)]
                for c in self.pkg.classes.values():
                    if e.attr in c.consts:
                        vs.append((c.mod, c.consts[e.attr]))
                if not vs:
                    return None
                out = set()
                for mm, v in vs:
                    t = self.types(v, mm, None, depth + 1)
                    if t is None:
                        return None
                    out |= t
                return out
        return None

    def union(self, es, m, fn, depth):
        out = set()
        for x in es:
            if isinstance(x, ast.Constant) and x.value is None:
                continue
            t = self.types(x, m, fn, depth + 1)
            if t is None:
                return None
            out |= t
        return out

    def elements(self, e, m, fn, depth):
        vs = None
        if isinstance(e, ast.Dict):
            vs = e.values
        elif isinstance(e, (ast.List, ast.Tuple)):
            vs = e.elts
        elif isinstance(e, ast.Name):
            if fn is not None and local(fn, e.id):
                ds = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
                return self.elements(ds[0], m, fn, depth + 1) if len(ds) == 1 else None
            r = self.pkg.resolve(m, e.id)
            if r and r[0] == "var":
                return self.elements(r[1], r[2], None, depth + 1)
        if vs is None:
            return None
        out = set()
        for v in vs:
            for y in (v.elts if isinstance(v, (ast.Tuple, ast.List)) else [v]):
                t = self.types(y, m, fn, depth + 1)
                if t is not None:
                    out |= t
        return out or None

    def flow(self, name, m, fn, depth):
        out = set()
        hit = False
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        if isinstance(x.value, ast.Constant) and x.value.value is None:
                            continue
                        hit = True
                        r = self.types(x.value, m, fn, depth + 1)
                        if r is None:
                            return None
                        out |= r
                    elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == name for y in t.elts):
                        if isinstance(x.value, ast.Subscript):
                            r = self.elements(x.value.value, m, fn, depth + 1)
                        elif isinstance(x.value, (ast.Tuple, ast.List)):
                            r = self.types(x.value.elts[[isinstance(y, ast.Name) and y.id == name for y in t.elts].index(True)], m, fn, depth + 1)
                        else:
                            r = None
                        if r is None:
                            return None
                        hit = True
                        out |= r
            elif isinstance(x, (ast.For, ast.comprehension)):
                if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                    r = self.elements(x.iter, m, fn, depth + 1)
                    if r is None:
                        return None
                    hit = True
                    out |= r
            elif isinstance(x, ast.ExceptHandler) and x.name == name:
                hit = True
                ts = x.type.elts if isinstance(x.type, ast.Tuple) else [x.type] if x.type is not None else []
                for y in ts:
                    r = self.types(y, m, None, depth + 1)
                    if r is None:
                        return None
                    out |= r
            elif isinstance(x, ast.NamedExpr) and x.target.id == name:
                r = self.types(x.value, m, fn, depth + 1)
                if r is None:
                    return None
                hit = True
                out |= r
        # a parameter: every call of the function that declares it
        for f in [fn] + [y for y in ast.walk(fn) if isinstance(y, (ast.FunctionDef, ast.Lambda)) and y is not fn]:
            ps, kw, va, kwa = params(f)
            if name not in ps + kw:
                continue
            fname = getattr(f, "name", None)
            sites = self.callsites().get(fname, [])
            if not sites:
                continue
            for mm, g, c in sites:
                pos = ps
                if ps and ps[0] in ("self", "cls"):
                    pos = ps[1:]
                a = None
                if name in pos and pos.index(name) < len(c.args):
                    a = c.args[pos.index(name)]
                for k in c.keywords:
                    if k.arg == name:
                        a = k.value
                if a is None:
                    continue
                hit = True
                r = self.types(a, mm, g, depth + 1)
                if r is None:
                    return None
                out |= r
        return out if hit else None

    def ref(self, e, m):
        d = dotted(e)
        if not d:
            return None
        r = self.pkg.resolve(m, d[0])
        if len(d) == 1:
            if r is None and d[0] in BUILTIN:
                return ("builtin", d[0])
            return r
        if r and r[0] == "mod":
            mm = self.pkg.module_of(".".join([r[1]] + d[1:-1])) or self.pkg.module_of(r[1])
            return self.pkg.resolve(mm, d[-1]) if mm is not None else None
        return None

    def func(self, f, m):
        if isinstance(f, ast.Name):
            r = self.pkg.resolve(m, f.id)
            return [r[1]] if r and r[0] == "fn" else []
        if isinstance(f, ast.Attribute):
            n = f.attr
            return [c.methods[n] for c in self.pkg.classes.values() if n in c.methods]
        return []


import builtins
BUILTIN = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
BROAD = {"Exception", "BaseException"}


def local(fn, name):
    ps, kw, va, kwa = params(fn)
    if name in ps + kw + [va, kwa]:
        return True
    return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name or isinstance(x, ast.ExceptHandler) and x.name == name
               for x in ast.walk(fn)) or any(
        isinstance(x, ast.arg) and x.arg == name for x in ast.walk(fn))


def leaves(body, pkg=None, m=None, depth=0):
    """does every path through the statements end in a raise?"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If):
            if s.orelse and leaves(s.body, pkg, m, depth) and leaves(s.orelse, pkg, m, depth):
                return True
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)):
                return False
        elif isinstance(s, (ast.With,)):
            if leaves(s.body, pkg, m, depth):
                return True
        elif isinstance(s, ast.Try):
            if leaves(s.finalbody, pkg, m, depth):
                return True
            if leaves(s.body, pkg, m, depth) and all(leaves(h.body, pkg, m, depth) for h in s.handlers):
                return True
        elif isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and pkg is not None and depth < 3:
            f = s.value.func
            n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            gs = [g for g in functions(pkg) if g.name == n]
            if gs and all(leaves(g.node.body, pkg, g.mod, depth + 1) for g in gs):
                return True
    return False


def owner(m, node):
    """outermost function around a node"""
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(x is node for x in ast.walk(f)):
                return f
    return None


def rule_C34(repo, here, only=None):
    pkg, eff = model(repo)
    ex = Exc(pkg)
    t0 = time.time()
    results = []
    # hierarchy
    bad, n = [], 0
    for c in pkg.classes.values():
        if pkg.isexc(c) or any(b in BUILTIN for x in pkg.mro(c) for b in x.bases):
            n += 1
            if c.name != ROOT and ex.branch(c) is None:
                bad.append("%s (%s:%d) is not a %s" % (c.name, rel(c.mod), c.node.lineno, ROOT))
            if c.name == ROOT and not ("Exception" in c.bases):
                bad.append("%s is not an Exception" % ROOT)
    results.append(done("hierarchy", bad, [], n, "exception classes below %s" % ROOT, t0))
    # raise sites
    bad, unk, n = [], [], 0
    nodes = 0
    for m in pkg.mods.values():
        allowed = BRANCH.get(rel(m))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.stmt):
                nodes += 1
            if not isinstance(x, ast.Raise) or x.exc is None:
                continue
            n += 1
            fn = owner(m, x)
            ts = ex.types(x.exc, m, fn)
            where = "%s:%d%s" % (rel(m), x.lineno, " in " + fn.name if fn is not None else "")
            if ts is None:
                unk.append("%s: cannot tell what is raised" % where)
                continue
            for t in ts:
                if isinstance(t, str):
                    h = [h for h in ast.walk(m.tree) if isinstance(h, ast.ExceptHandler) and h.name and isinstance(x.exc, ast.Name) and x.exc.id == h.name]
                    if not h and t not in ("NotImplementedError", "StopIteration", "KeyboardInterrupt"):
                        bad.append("%s raises %s, not a library error" % (where, t))
                    continue
                b = ex.branch(t)
                if b is None:
                    bad.append("%s raises %s, which is not a %s" % (where, t.name, ROOT))
                elif allowed is not None and b not in allowed and b != ROOT:
                    bad.append("%s raises %s of the branch %s" % (where, t.name, b))
                elif b == ROOT and t.name != ROOT and allowed is not None:
                    bad.append("%s raises %s, which belongs to no branch" % (where, t.name))
    results.append(done("raised", bad, unk, n, "raise statements, each a library error of its part", t0))
    # exception objects that are built but not raised
    bad, unk, n = [], [], 0
    for m in pkg.mods.values():
        parent = {}
        for x in ast.walk(m.tree):
            for c in ast.iter_child_nodes(x):
                parent[c] = x
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            r = ex.ref(x.func, m)
            iscls = r is not None and (r[0] == "cls" and ex.branch(r[1]) is not None or r[0] == "builtin")
            if not iscls:
                continue
            n += 1
            p = parent.get(x)
            fn = owner(m, x)
            nm = r[1] if isinstance(r[1], str) else r[1].name
            where = "%s:%d%s" % (rel(m), x.lineno, " in " + fn.name if fn is not None else "")
            while isinstance(p, (ast.IfExp, ast.BoolOp)):
                p = parent.get(p)
            if isinstance(p, ast.Expr):
                bad.append("%s builds %s without raising it" % (where, nm))
            elif isinstance(p, ast.Return) and fn is not None:
                sites = ex.callsites().get(fn.name, [])
                bad2 = [c for mm, g, c in sites if not raised(mm, c)]
                if bad2 or not sites:
                    bad.append("%s returns %s instead of raising it" % (where, nm))
            elif isinstance(p, ast.Assign) and fn is not None:
                for t in p.targets:
                    if isinstance(t, ast.Name) and not any(isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load) for y in ast.walk(fn)):
                        bad.append("%s builds %s without raising it" % (where, nm))
    results.append(done("built", bad, unk, n, "exception objects, none dropped or returned", t0))
    # handlers
    bad, unk, n = [], [], 0
    for m in pkg.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Try):
                fn = owner(m, x)
                for y in x.finalbody:
                    for z in walk_same(y):
                        if isinstance(z, (ast.Return, ast.Break, ast.Continue)):
                            bad.append("%s:%d%s: the finally block discards errors" % (rel(m), z.lineno, " in " + fn.name if fn else ""))
                for h in x.handlers:
                    n += 1
                    where = "%s:%d%s" % (rel(m), h.lineno, " in " + fn.name if fn is not None else "")
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else [None]
                    for t in ts:
                        k = {"BaseException"} if t is None else ex.types(t, m, None)
                        if k is None:
                            unk.append("%s: cannot tell what is caught" % where)
                            continue
                        lib = any(not isinstance(y, str) and ex.branch(y) is not None for y in k)
                        broad = any(isinstance(y, str) and y in BROAD for y in k)
                        conv = any(isinstance(y, str) and y in ("ValueError", "TypeError") for y in k)
                        out = leaves(h.body, pkg, m)
                        if lib or broad:
                            calls = [c for s in x.body for c in ast.walk(s) if isinstance(c, ast.Call)]
                            if not out:
                                bad.append("%s: the handler discards library errors" % where)
                            elif lib and not reraises(h):
                                bad.append("%s: the handler replaces library errors" % where)
                            elif broad and not reraises(h) and any(may_raise_lib(ex, pkg, c, m) for c in calls):
                                bad.append("%s: the handler replaces library errors" % where)
                        elif conv and not out and any(converts(s) for s in x.body):
                            bad.append("%s: a value that cannot be read is accepted silently" % where)
            elif isinstance(x, ast.With):
                for i in x.items:
                    c = i.context_expr
                    d = dotted(c.func) if isinstance(c, ast.Call) else None
                    if d and d[-1] == "suppress":
                        n += 1
                        for a in c.args:
                            k = ex.types(a, m, None) or {"Exception"}
                            if any(isinstance(y, str) and y in BROAD | {"ValueError", "TypeError"} or not isinstance(y, str) for y in k):
                                bad.append("%s:%d: suppress() discards errors" % (rel(m), x.lineno))
    results.append(done("handlers", bad, unk, n, "handlers, none discarding an error", t0))
    if only:
        results = [r for r in results if r.name in only]
    return results, {f.qual for f in eff.fns}, nodes


def walk_same(s):
    yield s
    for c in ast.iter_child_nodes(s):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
            yield from walk_same(c)


def reraises(h):
    """the caught error itself goes on"""
    return all(isinstance(x, ast.Raise) and (x.exc is None or isinstance(x.exc, ast.Name) and x.exc.id == h.name)
               for x in ast.walk(ast.Module(h.body, [])) if isinstance(x, ast.Raise))


def raised(m, call):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Raise) and x.exc is not None and any(y is call for y in ast.walk(x.exc)):
            return True
        if isinstance(x, (ast.Assign, ast.Return)) and x.value is call:
            return True
    return False


def converts(s):
    return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("float", "int") for c in ast.walk(s))


def may_raise_lib(ex, pkg, c, m, depth=0, seen=None):
    seen = seen if seen is not None else set()
    f = c.func
    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    gs = [g for g in functions(pkg) if g.name == n]
    k = pkg.classes.get(n)
    if k is not None and "__init__" in k.methods and not pkg.isexc(k):
        gs.append(k.methods["__init__"])
    for g in gs:
        if g in seen:
            continue
        seen.add(g)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Raise):
                return True
            if isinstance(x, ast.Call) and may_raise_lib(ex, pkg, x, g.mod, depth + 1, seen):
                return True
    return False
