"""Interprocedural effect and escape analysis.

Every function gets a summary: what it may modify (reachable from which parameter, attribute of self, module- or
class-level object or default argument), what its result may share with them, and what it stores into what.
Objects are tokens:
  ("p", name)      anything reachable from a parameter          ("s", attr)   anything reachable from self.attr
  ("g", name)      a module- or class-level mutable object      ("d", name)   the object a parameter defaults to
  ("n", site)      an object created in the function; its contents are kept per site
The analysis is flow-sensitive on local variables and joins over paths; loops are iterated to a fixpoint."""
import ast

MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "add", "discard",
       "popitem", "appendleft", "popleft", "extendleft", "rotate", "__setitem__", "__delitem__", "__setattr__", "move_to_end",
       "intersection_update", "difference_update", "symmetric_difference_update"}
PUT = {"append", "insert", "add", "appendleft", "setdefault", "__setitem__", "__setattr__"}
PUTALL = {"extend", "update", "extendleft"}
TAKE = {"pop", "get", "setdefault", "items", "values", "keys", "popleft", "popitem", "__getitem__", "most_common", "elements"}
COPY = {"list", "dict", "set", "tuple", "sorted", "reversed", "zip", "enumerate", "map", "filter", "iter", "frozenset", "chain",
        "copy", "deque", "OrderedDict", "defaultdict", "Counter", "islice", "product", "zip_longest", "next", "max", "min",
        "choice", "getattr", "reduce"}
SCALAR = {"len", "range", "int", "float", "str", "bool", "abs", "round", "sum", "isinstance", "print", "type", "id", "hash",
          "repr", "format", "any", "all", "ord", "chr", "pow", "divmod", "issubclass", "hasattr", "callable", "open", "deepcopy"}
MUTABLE_CTORS = {"list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "bytearray", "deepcopy", "copy"}
CACHES = {"lru_cache", "cache", "cached", "memoize"}


class Summary:
    def __init__(self):
        self.mut = {}        # token -> (kind, where)
        self.ret = set()     # tokens, ("n", "ret") for a new object
        self.cont = set()    # what the new objects returned hold that is not new
        self.graph = {}      # the new objects returned and what they hold
        self.puts = {}       # token -> tokens stored into it
        self.captured = {}   # objects of the function that its inner functions modify
        self.kinds = set()   # what kinds of new objects are returned

    def key(self):
        return (frozenset(self.mut), frozenset(self.ret), frozenset(self.cont),
                frozenset((k, frozenset(v)) for k, v in self.graph.items()), frozenset((k, frozenset(v)) for k, v in self.puts.items()))


def mutable_expr(e, pkg=None, mod=None):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
        return True
    if isinstance(e, ast.BinOp):
        return mutable_expr(e.left, pkg, mod) or mutable_expr(e.right, pkg, mod)
    if isinstance(e, ast.IfExp):
        return mutable_expr(e.body, pkg, mod) or mutable_expr(e.orelse, pkg, mod)
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if n in MUTABLE_CTORS:
            return True
        if pkg is not None and mod is not None:
            if isinstance(f, ast.Name):
                r = pkg.resolve(mod, f.id)
                if r and r[0] == "cls":
                    return not r[1].isenum and not pkg.isexc(r[1])
                if r and r[0] == "fn":
                    return any(isinstance(x, ast.Return) and x.value is not None and mutable_expr(x.value, pkg, r[1].mod)
                               for x in ast.walk(r[1].node))
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                r = pkg.resolve(mod, f.value.id)
                if r and r[0] == "cls":
                    m = pkg.method(r[1], f.attr)
                    if m is not None:
                        return True
    return False


def dd_depth(x):
    """levels of a nested defaultdict"""
    n = 1
    while x.args and isinstance(x.args[0], ast.Lambda) and isinstance(x.args[0].body, ast.Call):
        x = x.args[0].body
        n += 1
    return n


SCALARS = {"int", "float", "str", "bool", "complex", "bytes"}


def scalar(an):
    """2: annotated as a number or text; 1: a container of such; 0: anything else"""
    if isinstance(an, ast.Constant) and isinstance(an.value, str):
        try:
            an = ast.parse(an.value, mode="eval").body
        except SyntaxError:
            return 0
    if isinstance(an, ast.Name):
        return 2 if an.id in SCALARS else 0
    if isinstance(an, ast.Subscript) and isinstance(an.value, ast.Name):
        sl = an.slice
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        ks = [scalar(x) for x in elts if not (isinstance(x, ast.Constant) and x.value in (None, Ellipsis))]
        if an.value.id in ("Optional", "Union"):
            return min(ks, default=0)
        if ks and all(k == 2 for k in ks):
            return 1
    return 0


class Effects:
    def __init__(self, pkg, mods=None):
        self.pkg = pkg
        self.sums = {}
        self.byname = {}
        self.fns = []
        self.unknown = {}
        self.flatg = set()
        self.init_sets = {}
        self.deps = {}
        for m in pkg.mods.values():
            for kind, *r in list(m.names.values()):
                if kind == "fn":
                    self.fns.append(r[0])
                elif kind == "cls":
                    for f in r[0].methods.values():
                        self.fns.append(f)
                        self.byname.setdefault(f.name, []).append(f)
        for f in self.fns:
            self.sums[f] = Summary()
        self.fix()

    def fix(self):
        work = list(self.fns)
        inq = set(work)
        n = 0
        while work and n < 4000:
            n += 1
            f = work.pop(0)
            inq.discard(f)
            old = self.sums[f].key()
            self.cur = f
            Walk(self, f).run()
            if self.sums[f].key() != old:
                for g in self.deps.get(f, ()):
                    if g not in inq:
                        work.append(g)
                        inq.add(g)

    def set_in_init(self, c, name):
        k = (c.name, name)
        if k not in self.init_sets:
            self.init_sets[k] = any(
                isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name
                for b in self.pkg.mro(c) if "__init__" in b.methods for n in ast.walk(b.methods["__init__"].node))
        return self.init_sets[k]

    def use(self, g):
        self.deps.setdefault(g, set()).add(self.cur)
        return self.sums[g]

    def prop(self, name):
        return [f for f in self.byname.get(name, ()) if f.prop]


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, frozenset()) | v
    return r


class Walk:
    def __init__(self, eff, f):
        self.e, self.f = eff, f
        self.s = eff.sums[f]
        self.heap = {}
        self.lists = set()
        self.nested = {}
        self.path = f.mod.path
        self.depth = 0

    def run(self):
        f = self.f
        env = {}
        ps, kw, va, kwa = params(f.node)
        self.selfname = ps[0] if f.cls is not None and not f.static and ps else None
        self.flat = set()
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            k = scalar(x.annotation)
            env[x.arg] = frozenset() if k == 2 else frozenset([("p", x.arg)])
            if k == 1:
                self.flat.add(x.arg)
        for p in (va, kwa):
            if p:
                env[p] = frozenset([("p", p)])
        self.defaults(f.node, env)
        self.rets = set()
        self.body(f.node.body, env)
        for t in self.rets:
            self.s.ret.add(t)
            if t[0] == "n":
                self.s.kinds.add(t[1][0])
        for t in self.closure({t for t in self.rets if t[0] == "n"}):
            if t[0] == "n":
                self.s.graph.setdefault(t, set()).update(self.heap.get(t, ()))
            else:
                self.s.cont.add(t)

    def defaults(self, node, env):
        a = node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if mutable_expr(d, self.e.pkg, self.f.mod):
                n = self.f.qual + "." + p.arg
                self.gtok(n, d)
                if isinstance(d, ast.Call) and not d.args and not d.keywords and isinstance(d.func, ast.Name) and d.func.id in MUTABLE_CTORS:
                    self.e.flatg.add(n)
                env[p.arg] = env[p.arg] | {("d", n)}
            elif isinstance(d, ast.Name):
                env[p.arg] = env[p.arg] | self.globalname(d.id)

    # ------------------------------------------------------------- tokens
    def closure(self, ts):
        out, todo = set(), list(ts)
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.add(t)
            if t[0] == "n":
                todo += list(self.heap.get(t, ()))
                if t[1][0] == "dd" and t[1][4] > 0:
                    todo.append(("n", t[1][:4] + (t[1][4] - 1,)))
        return out

    def deref(self, ts):
        out = set()
        for t in ts:
            if t[0] == "n":
                out |= self.heap.get(t, set())
                if t[1][0] == "dd" and t[1][4] > 0:
                    out.add(("n", t[1][:4] + (t[1][4] - 1,)))
            elif t[0] == "d":
                if t[1] not in self.e.flatg:
                    out.add(t)
            elif t[0] == "g":
                if t[1] not in self.e.flatg:
                    out.add(("h", t[1]))
            elif t[0] == "p" and t[1] != self.selfname:
                if t[1] not in self.flat:
                    out.add(("e", t[1]))
            elif t[0] == "s":
                out.add(("t", t[1]))
            else:
                out.add(t)
        return frozenset(out)

    flat = frozenset()

    def new(self, node, kind, content=()):
        t = ("n", (kind, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.depth))
        if kind == "list":
            self.lists.add(t)
        self.heap.setdefault(t, set()).update(content)
        return frozenset([t])

    def where(self, node):
        return "%s:%d in %s" % (self.path.split("sidermit/")[-1], getattr(node, "lineno", 0), self.f.qual)

    def mutate(self, ts, node, kind="deep", what=""):
        for t in ts:
            if t[0] == "n":
                if self.depth and t[1][3] < self.depth:
                    self.s.captured.setdefault(t[1][:3], self.where(node))
            else:
                self.s.mut.setdefault(t, (kind, what or self.where(node)))

    def put(self, ts, vs):
        vs = set(vs)
        for t in ts:
            if t[0] == "n":
                self.heap.setdefault(t, set()).update(vs - {t})
            else:
                c = {x for x in self.closure(vs) if x[0] != "n"} - {t}
                if c:
                    self.s.puts.setdefault(t, set()).update(c)

    def globalname(self, name):
        r = self.e.pkg.resolve(self.f.mod, name)
        if r and r[0] == "var" and mutable_expr(r[1], self.e.pkg, r[2]):
            return self.gtok(r[2].name + "." + name, r[1])
        return frozenset()

    def gtok(self, name, e):
        if all(isinstance(y, (ast.Constant, ast.UnaryOp, ast.USub, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.expr_context)) for y in ast.walk(e)) \
                and not any(isinstance(y, (ast.List, ast.Dict, ast.Set)) for z in ast.iter_child_nodes(e) for y in ast.walk(z)):
            self.e.flatg.add(name)
        return frozenset([("g", name)])

    # ------------------------------------------------------------- statements
    def body(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return env
            v = self.ev(s.value, env)
            env = dict(env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                cur = env.get(s.target.id, frozenset())
                if s.target.id in self.globs:
                    cur = frozenset([("g", self.f.mod.name + "." + s.target.id)])
                    self.mutate(cur, s, "bind")
                listy = isinstance(s.value, (ast.List, ast.ListComp)) or any(t in self.lists for t in v)
                if listy:
                    self.mutate(cur, s)
                    self.put(cur, self.deref(v))
                env = dict(env)
                env[s.target.id] = cur | (v if not listy else frozenset())
            else:
                listy = isinstance(s.value, (ast.List, ast.ListComp)) or any(t in self.lists for t in v)
                cur = self.ev(s.target, env)
                if listy:
                    self.mutate(cur, s)
                self.store(s.target, self.deref(v) if listy else frozenset(), env, s.target)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.store(t, frozenset(), env, t)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.rets |= self.ev(s.value, env)
            return None
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.exits.append(env)
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            return join(self.body(s.body, env), self.body(s.orelse, env))
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            it = self.ev(s.iter, env) if not isinstance(s, ast.While) else None
            outer = getattr(self, "exits", [])
            for _ in range(12):
                self.exits = []
                e2 = dict(env)
                if it is not None:
                    self.assign(s.target, self.deref(it), e2, None)
                else:
                    self.ev(s.test, e2)
                r = self.body(s.body, e2)
                for x in self.exits:
                    r = join(r, x)
                n = join(env, r)
                if n == env:
                    break
                env = n
            self.exits = outer
            return self.body(s.orelse, env) if s.orelse else env
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.body(s.body, env)
        elif isinstance(s, ast.Try):
            r = self.body(s.body, env)
            start = join(env, r)
            if r is not None and s.orelse:
                r = self.body(s.orelse, r)
            for h in s.handlers:
                r = join(r, self.body(h.body, dict(start)))
            if s.finalbody:
                r2 = self.body(s.finalbody, r if r is not None else dict(start))
                r = r2 if r is not None else None
            return r
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested[s.name] = s
            env = dict(env)
            env[s.name] = frozenset()
            self.inline(s, env, None)
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.Global):
                self.globs |= set(s.names)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif s.__class__.__name__ == "Match":
            v = self.ev(s.subject, env)
            r = env
            for c in s.cases:
                e2 = dict(env)
                for n in ast.walk(c.pattern):
                    nm = getattr(n, "name", None)
                    if isinstance(nm, str):
                        e2[nm] = self.deref(v) | v
                r = join(r, self.body(c.body, e2))
            return r
        return env

    globs = frozenset()
    exits = []

    def inline(self, node, env, args):
        """effects of a nested function: on what it captures and on its arguments"""
        if self.depth > 4:
            return frozenset()
        self.depth += 1
        saved, sx = self.rets, self.exits
        self.rets = set()
        e2 = dict(env)
        ps, kw, va, kwa = params(node)
        for i, p in enumerate(ps + kw + [x for x in (va, kwa) if x]):
            e2[p] = args[i] if args is not None and i < len(args) else self.new(node, "arg%d" % i)
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, e2)
        else:
            self.body(node.body, e2)
            r = frozenset(self.rets)
        self.rets, self.exits = saved, sx
        self.depth -= 1
        return r

    def assign(self, t, v, env, src):
        if isinstance(t, ast.Name):
            if t.id in self.globs:
                self.mutate([("g", self.f.mod.name + "." + t.id)], t, "bind")
            env[t.id] = frozenset(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                    self.assign(x, self.ev(src.elts[i], env), env, src.elts[i])
                else:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.deref(v), env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)
        else:
            self.store(t, v, env, t)

    def store(self, t, v, env, node):
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id not in env:
                r = self.e.pkg.resolve(self.f.mod, t.value.id)
                if r and r[0] in ("cls", "fn", "mod"):
                    self.mutate([("g", "%s.%s" % (t.value.id, t.attr))], node, "bind")
                    self.put([("g", "%s.%s" % (t.value.id, t.attr))], v)
                    return
            base = self.ev(t.value, env)
            if self.classref(t.value, env):
                self.mutate([("g", "%s.%s" % (self.f.cls.name, t.attr))], node, "bind")
                return
            for b in base:
                if b == ("p", self.selfname):
                    k = ("s", self.plain(t.attr))
                    self.mutate([k], node, "bind")
                    self.put([("b", k[1])], v)
                else:
                    self.mutate([b], node)
                    self.put([b], v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(base, node)
            self.put(base, v)

    def classref(self, e, env):
        """cls, type(self), self.__class__"""
        if self.f.cls is None:
            return False
        if isinstance(e, ast.Name) and self.f.classm and e.id == self.selfname:
            return True
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type"

    def plain(self, attr):
        c = self.f.cls.name if self.f.cls else ""
        return attr[len(c) + 1:] if attr.startswith("_" + c + "__") else attr

    # ------------------------------------------------------------- expressions
    def ev(self, x, env):
        r = self._ev(x, env)
        return frozenset(r)

    def _ev(self, x, env):
        if x is None or isinstance(x, ast.Constant):
            return ()
        if isinstance(x, ast.Name):
            if x.id in env and x.id not in self.globs:
                return env[x.id]
            return self.globalname(x.id)
        if isinstance(x, ast.Attribute):
            return self.attr(x, env)
        if isinstance(x, ast.Subscript):
            b = self.ev(x.value, env)
            self.ev(x.slice, env)
            if isinstance(x.slice, ast.Slice):
                return self.new(x, "list", self.deref(b))
            return self.deref(b)
        if isinstance(x, ast.Slice):
            for y in (x.lower, x.upper, x.step):
                self.ev(y, env)
            return ()
        if isinstance(x, ast.Call):
            return self.call(x, env)
        if isinstance(x, (ast.List, ast.Set)):
            c = set()
            for y in x.elts:
                c |= self.ev(y, env)
            return self.new(x, "list", c)
        if isinstance(x, ast.Tuple):
            c = set()
            for y in x.elts:
                c |= self.ev(y, env)
            return self.new(x, "tuple", c)
        if isinstance(x, ast.Dict):
            c = set()
            for y in x.keys:
                c |= self.ev(y, env) if y is not None else set()
            for k, y in zip(x.keys, x.values):
                v = self.ev(y, env)
                c |= v if k is not None else self.deref(v)
            return self.new(x, "dict", c)
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in x.generators:
                self.assign(g.target, self.deref(self.ev(g.iter, e2)), e2, None)
                for c in g.ifs:
                    self.ev(c, e2)
            c = set()
            for y in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                c |= self.ev(y, e2)
            return self.new(x, "list", c)
        if isinstance(x, ast.BinOp):
            a, b = self.ev(x.left, env), self.ev(x.right, env)
            if any(t in self.lists for t in a | b):
                return self.new(x, "list", self.deref(a) | self.deref(b))
            return self.new(x, "bin", self.deref(a) | self.deref(b)) if isinstance(x.op, (ast.Add, ast.BitOr)) else ()
        if isinstance(x, ast.BoolOp):
            r = set()
            for y in x.values:
                r |= self.ev(y, env)
            return r
        if isinstance(x, ast.IfExp):
            self.ev(x.test, env)
            return self.ev(x.body, env) | self.ev(x.orelse, env)
        if isinstance(x, ast.Lambda):
            self.inline(x, env, None)
            return ()
        if isinstance(x, ast.NamedExpr):
            v = self.ev(x.value, env)
            env[x.target.id] = v
            return v
        if isinstance(x, ast.Starred):
            return self.deref(self.ev(x.value, env))
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            v = self.ev(x.value, env) if x.value is not None else frozenset()
            self.rets |= self.new(x, "list", v if isinstance(x, ast.Yield) else self.deref(v))
            return ()
        for y in ast.iter_child_nodes(x):
            if isinstance(y, ast.expr):
                self.ev(y, env)
            elif isinstance(y, ast.FormattedValue):
                self.ev(y.value, env)
        return ()

    def attr(self, x, env):
        if isinstance(x.value, ast.Name) and x.value.id not in env:
            r = self.e.pkg.resolve(self.f.mod, x.value.id)
            if r and r[0] == "cls":
                return self.classattr(r[1], x.attr)
            if r and r[0] == "mod":
                m = self.e.pkg.module_of(r[1])
                v = m.names.get(x.attr) if m is not None else None
                if v and v[0] == "var" and mutable_expr(v[1], self.e.pkg, v[2]):
                    return self.gtok(m.name + "." + x.attr, v[1])
                return frozenset()
            if r and r[0] == "ext":
                return frozenset()
        base = self.ev(x.value, env)
        if self.classref(x.value, env):
            return self.classattr(self.f.cls, x.attr)
        out = set()
        for g in self.e.prop(x.attr):
            out |= self.apply(g, base, [], {}, x)
        if self.e.prop(x.attr):
            return frozenset(out)
        for b in base:
            if b == ("p", self.selfname) and self.f.cls is not None:
                out.add(("s", self.plain(x.attr)))
                # an attribute the constructor sets hides the class-level object
                if not self.e.set_in_init(self.f.cls, x.attr):
                    out |= self.classattr(self.f.cls, x.attr)
            else:
                out |= self.deref([b])
        return frozenset(out)

    def classattr(self, c, name):
        for k in self.e.pkg.mro(c):
            v = k.consts.get(name)
            if v is None and name.startswith("_" + k.name + "__"):
                v = k.consts.get(name[len(k.name) + 1:])
            if v is not None and not k.isenum:
                if mutable_expr(v, self.e.pkg, k.mod) and not self.isproperty(v):
                    return self.gtok("%s.%s" % (k.name, name), v)
                return frozenset()
        return frozenset()

    def isproperty(self, v):
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Name):
                if f.id == "property":
                    return True
                r = self.e.pkg.resolve(self.f.mod, f.id)
                if r and r[0] == "fn":
                    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "property" for x in ast.walk(r[1].node)) or \
                        any(isinstance(d, ast.Name) and d.id == "property" for x in ast.walk(r[1].node) if isinstance(x, ast.FunctionDef) for d in x.decorator_list)
        return False

    def call(self, x, env):
        f = x.func
        args = [self.ev(a, env) for a in x.args]
        kws = {}
        for k in x.keywords:
            v = self.ev(k.value, env)
            if k.arg is not None:
                kws[k.arg] = v
            else:
                args.append(self.deref(v))
        allv = set()
        for v in list(args) + list(kws.values()):
            allv |= v
        # functions handed to other functions are called with arguments of their own
        for a in list(x.args) + [k.value for k in x.keywords]:
            self.callback(a, env)
        if isinstance(f, ast.Name):
            n = f.id
            if n in self.nested:
                return self.inline(self.nested[n], env, args)
            r = self.e.pkg.resolve(self.f.mod, n) if n not in env else None
            if r and r[0] == "cls":
                return self.construct(r[1], args, kws, x)
            if r and r[0] == "fn":
                return self.apply(r[1], None, args, kws, x)
            if n == "super":
                return frozenset([("p", self.selfname)])
            if n in ("setattr", "delattr"):
                if args:
                    for b in args[0]:
                        if b == ("p", self.selfname) and len(x.args) > 1:
                            a = x.args[1]
                            k = ("s", self.plain(a.value) if isinstance(a, ast.Constant) else "*")
                            self.mutate([k], x, "bind")
                            self.put([("b", k[1])], allv)
                        else:
                            self.mutate([b], x)
                            self.put([b], allv - {b})
                    if isinstance(x.args[0], ast.Name) and x.args[0].id not in env:
                        r = self.e.pkg.resolve(self.f.mod, x.args[0].id)
                        if r and r[0] in ("cls", "mod"):
                            self.mutate([("g", x.args[0].id + ".*")], x, "bind")
                return ()
            if n in ("exec", "eval", "globals", "locals", "vars", "__import__"):
                self.e.unknown.setdefault(self.f, []).append("%s: %s()" % (self.where(x), n))
                return frozenset(allv)
            return self.library(n, allv, x)
        if isinstance(f, ast.Attribute):
            n = f.attr
            pk = self.e.pkg
            if isinstance(f.value, ast.Name) and f.value.id not in env:
                r = pk.resolve(self.f.mod, f.value.id)
                if r and r[0] == "cls":
                    m = pk.method(r[1], n)
                    if m is not None:
                        if m.static or m.classm:
                            return self.apply(m, None, args, kws, x)
                        # base-class call with explicit self
                        return self.apply(m, args[0] if args else frozenset(), args[1:], kws, x)
                if r and r[0] == "mod":
                    m = pk.module_of(r[1])
                    v = pk.resolve(m, n) if m is not None else None
                    if v and v[0] == "cls":
                        return self.construct(v[1], args, kws, x)
                    if v and v[0] == "fn":
                        return self.apply(v[1], None, args, kws, x)
                    return self.library(n, allv, x)
                if r and r[0] == "ext":
                    return self.library(n, allv, x)
            recv = self.ev(f.value, env)
            pn = self.plain(n)
            cands = self.e.byname.get(pn, [])
            own = pk.method(self.f.cls, pn) if self.f.cls is not None else None
            issuper = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"
            if issuper:
                cands = [pk.method(b, pn) for b in pk.mro(self.f.cls)[1:] if pk.method(b, pn)] if self.f.cls else []
                recv = frozenset([("p", self.selfname)])
            elif own is not None and (pn.startswith("__") and not pn.endswith("__") or isinstance(f.value, ast.Name) and f.value.id == self.selfname
                                      or self.classref(f.value, env)):
                cands = [own]
            out = set()
            hit = False
            cls = self.typed(f.value, env)
            if cls == "lib" and not issuper:
                cands = []
            for m in cands:
                if cls and cls != "lib" and not any(b.name == m.cls.name for b in pk.mro(cls)):
                    continue
                hit = True
                out |= self.apply(m, None if m.static or m.classm else recv, args, kws, x)
            if hit and not (pn in MUT or pn in TAKE):
                return frozenset(out)
            if hit and cls and cls != "lib":
                return frozenset(out)
            if pn in MUT:
                self.mutate(recv, x)
                if pn in PUT:
                    self.put(recv, allv)
                elif pn in PUTALL:
                    self.put(recv, self.deref(allv))
            if pn in TAKE:
                return self.deref(recv) | (allv if pn in ("get", "setdefault", "pop") else set()) | out
            if pn == "__init__":
                return ()
            if pn in ("join", "format", "strip", "split", "lower", "upper", "replace", "index", "count", "startswith", "endswith", "isdigit",
                      "write", "writelines", "read", "readlines", "close", "encode", "title", "splitlines", "lstrip", "rstrip", "find"):
                return ()
            return out | self.new(x, "ext", self.deref(recv) | allv)
        fv = self.ev(f, env)
        return self.new(x, "ext", set(fv) | allv)

    def typed(self, e, env):
        """class of a receiver when it is evident: a container literal/builtin, or an object just built"""
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Constant, ast.JoinedStr)):
            return "lib"
        if isinstance(e, ast.Name) and e.id in env:
            ts = env[e.id]
            if ts and all(t[0] == "n" for t in ts):
                ks = {t[1][0] for t in ts if isinstance(t[1], tuple)}
                if ks <= {"list", "dict", "tuple", "bin"}:
                    return "lib"
                if len(ks) == 1:
                    (k,) = ks
                    return self.e.pkg.classes.get(k[4:]) if k.startswith("cls:") else None
        return None

    def library(self, n, allv, x):
        if n in CONTAINER_FREE:
            return ()
        if n == "deepcopy":
            return self.new(x, "list")
        if n in SCALAR:
            return ()
        if n in ("max", "min", "next", "choice", "getattr", "reduce"):
            return self.deref(allv) | frozenset(allv)
        if n in ("heappush", "heappop", "heapify", "insort", "shuffle", "insort_left", "insort_right"):
            self.mutate(allv, x)
            return self.deref(allv)
        if n == "defaultdict":
            t = ("n", ("dd", x.lineno, x.col_offset, self.depth, dd_depth(x)))
            for v in self.deref(allv):
                self.heap.setdefault(t, set()).add(v)
            return frozenset([t])
        if n in COPY:
            return self.new(x, "list", self.deref(allv))
        return self.new(x, "ext", allv)

    def callback(self, a, env):
        if isinstance(a, ast.Name) and a.id in self.nested:
            return   # its effects were taken where it is defined
        if isinstance(a, ast.Attribute):
            pn = self.plain(a.attr)
            ms = self.e.byname.get(pn)
            if not ms or any(m.prop or m.setter for m in ms):
                return
            recv = self.ev(a.value, env)
            if isinstance(a.value, ast.Name) and a.value.id == self.selfname and self.f.cls is not None:
                own = self.e.pkg.method(self.f.cls, pn)
                ms = [own] if own is not None else ms
            for m in ms:
                self.apply(m, None if m.static or m.classm else recv, [], {}, a)
        elif isinstance(a, ast.Name) and a.id not in env:
            r = self.e.pkg.resolve(self.f.mod, a.id)
            if r and r[0] == "fn":
                self.apply(r[1], None, [], {}, a)

    def construct(self, c, args, kws, x):
        site = self.new(x, "cls:" + c.name)
        init = self.e.pkg.method(c, "__init__")
        if init is not None:
            self.apply(init, site, args, kws, x)
        elif not c.isenum:
            for v in list(args) + list(kws.values()):
                self.put(site, v)
        return site

    def apply(self, m, recv, args, kws, x):
        s = self.e.use(m)
        ps, kwo, va, kwa = params(m.node)
        bind = {}
        i = 0
        if m.cls is not None and not m.static and ps:
            bind[ps[0]] = recv if recv is not None else frozenset()
            selfn = ps[0]
            i = 1
        else:
            selfn = None
        pos = ps[i:]
        star = any(isinstance(a, ast.Starred) for a in getattr(x, "args", []) or [])
        for k, v in enumerate(args):
            if star:
                for p in pos:
                    bind[p] = bind.get(p, frozenset()) | v
            elif k < len(pos):
                bind[pos[k]] = v
            elif va:
                bind[va] = bind.get(va, frozenset()) | self.new(x, "list", v)
        for k, v in kws.items():
            if k in pos or k in kwo:
                bind[k] = v
            elif kwa:
                bind[kwa] = bind.get(kwa, frozenset()) | self.new(x, "list", v)

        def conv(ts):
            out = set()
            for t in ts:
                if t[0] == "p":
                    b = bind.get(t[1], frozenset())
                    # anything reachable from the argument
                    out |= b
                    out |= {y for y in self.closure(b)}
                elif t[0] == "e":
                    b = self.deref(bind.get(t[1], frozenset()))
                    out |= b
                    out |= self.closure(b)
                elif t[0] in "st":
                    b = bind.get(selfn, frozenset())
                    for y in b:
                        if y == ("p", self.selfname) and self.f.cls is not None:
                            out.add(t)
                        elif y[0] == "n":
                            out |= self.closure([y])
                        else:
                            out.add(y)
                elif t[0] == "n":
                    pass
                elif t[0] == "d":
                    out.add(t)
                else:
                    out.add(t)
            return out

        for t, (kind, w) in list(s.mut.items()):
            if t[0] == "d":
                # only when the argument is left out
                p = t[1].rsplit(".", 1)[-1]
                self.s.mut.setdefault(t, (kind, w))
                continue
            w2 = w if w.endswith("]") else w + " [called from %s]" % self.where(x)
            if t[0] in "st":
                for y in bind.get(selfn, frozenset()):
                    if y == ("p", self.selfname) and self.f.cls is not None:
                        self.s.mut.setdefault(t, (kind, w2))
                    elif y[0] == "n":
                        if kind != "bind":
                            # what was given to the new object
                            b = self.slots.get((y, "b", t[1]), set())
                            if t[0] == "t":
                                b = self.deref(b) | self.slots.get((y, "s", t[1]), set())
                            self.mutate([z for z in b if z[0] != "n"], x, "deep", w2)
                    else:
                        self.s.mut.setdefault(y, ("deep", w2))
                continue
            for y in conv([t]):
                if y[0] != "n":
                    self.s.mut.setdefault(y, ("deep" if t[0] in "pe" else kind, w2))
        for t, vs in list(s.puts.items()):
            tgt = set()
            if t[0] in "stb":
                for y in bind.get(selfn, frozenset()):
                    if y == ("p", self.selfname) and self.f.cls is not None:
                        tgt.add(t)
                    elif y[0] == "n":
                        self.slots.setdefault((y, "b" if t[0] == "b" else "s", t[1]), set()).update(conv(vs))
                        tgt.add(y)
                    else:
                        tgt.add(y)
            elif t[0] == "p":
                tgt |= bind.get(t[1], frozenset())
            elif t[0] == "e":
                tgt |= self.deref(bind.get(t[1], frozenset()))
            else:
                tgt.add(t)
            self.put(tgt, conv(vs))
        ren = {}
        for t in s.graph:
            k = t[1]
            ren[t] = ("n", (k[0], x.lineno, (x.col_offset, (k[1] * 131 + hash(k[2])) % 997), self.depth) + k[4:])
            if k[0] in ("list",) and t in s.graph:
                self.lists.add(ren[t])
        for t, vs in s.graph.items():
            self.heap.setdefault(ren[t], set()).update({ren[v] for v in vs if v in ren} | conv([v for v in vs if v[0] != "n"]))
        out = set(conv([t for t in s.ret if t[0] != "n"])) | {ren[t] for t in s.ret if t in ren}
        # a getter of a new object gives what was put in that slot
        if recv is not None:
            for t in s.ret:
                if t[0] in "st":
                    for y in recv:
                        if y[0] == "n":
                            out.add(y)
        return frozenset(out)

    @property
    def slots(self):
        if not hasattr(self, "_slots"):
            self._slots = {}
        return self._slots


CONTAINER_FREE = {"sqrt", "sin", "cos", "tan", "radians", "degrees", "ceil", "floor", "exp", "log", "isnan", "isclose"}
