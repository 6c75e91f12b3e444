"""Gated value-graph construction (if-converted, loops summarised) for the package source."""
import ast
from .core import *
from . import core, norm
from .norm import *
from .theory import Theory
from .pkg import Package, Cls, Fn

PURE_BUILTIN = {}


class Unsupported(Exception):
    pass


class Dead(Exception):
    pass


class State:
    __slots__ = ("env", "store", "rel", "dead", "facts", "ret", "retv")

    def __init__(self):
        self.env = {}
        self.store = {}
        self.rel = TRUE
        self.dead = False
        self.facts = TRUE
        self.ret = FALSE
        self.retv = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.rel, s.dead, s.facts, s.ret, s.retv = self.rel, self.dead, self.facts, self.ret, self.retv
        return s

    def take(self, o):
        self.env, self.store = o.env, o.store
        self.rel, self.dead, self.facts, self.ret, self.retv = o.rel, o.dead, o.facts, o.ret, o.retv


def once(ws):
    """the writes with 'append unless present' read as plain appends"""
    return tuple(("w", w[1], w[2], "app" if w[3] == "appu" else w[3], w[4]) if w[0] == "w" else
                 ("l", w[1], w[2], once(w[3])) for w in ws)


class Ev:
    """an event: raise / heap write / external effect"""
    __slots__ = ("kind", "what", "g", "loops", "where", "data", "seq", "alive")

    def __init__(self, kind, what, g, loops, where, data=None):
        self.kind, self.what, self.g, self.loops, self.where, self.data = kind, what, g, loops, where, data

    def clone(self):
        return Ev(self.kind, self.what, self.g, self.loops, self.where, self.data)

    def __repr__(self):
        return "<%s %s if %s @%s>" % (self.kind, self.what, showg(self.g), self.where)


UNDEF = vt(mk("undef"))


class Interp:
    def __init__(self, pkg, atomic=(), maxdepth=30, value_classes=()):
        self.pkg = pkg
        self.theory = Theory(pkg)
        self.atomic = set(atomic)
        self.stubs = {}
        self.mstubs = {}
        self.base = TRUE
        self.fg = TRUE
        self.events = []
        self.loops = ()
        self.ctx = ()
        self.depth = 0
        self.maxdepth = maxdepth
        self.fns = {}
        self.frames = 0
        self.objcls = {}
        self.objty = {}
        self.changed_cache = {}
        self.value_classes = set(value_classes)
        self.cattr = {}
        self.templates = {}
        self.ptype = {}
        self.given = set()
        self.tcache = {}
        self.fstack = []
        self.analysed = set()
        self.calls = set()
        self.nodes = 0
        self.where = None
        self.slots = 0
        self.deadline = None
        self.callers = []
        self.closenv = []
        norm.new_attr[0] = self.new_attr
        norm.typeof = self.typeof
        norm.is_dict = lambda t: (self.typeof(t) or ("?",))[0] == "dict" or t.op == "map"
        norm.is_string = self.is_string
        core.never_eq_hook[0] = self.never_eq
        core.truth_hook[0] = self.truth_t
        core.nonneg_hook[0] = self.nonneg_t
        norm.distinct_hook[0] = self.distinct
        norm.text_hook[0] = lambda v: self.is_string(v) or asT(v) is not None and self.typeof(asT(v)) == ("str",)
        core.eq_hook[0] = self.eq_special
        core.gpost_hook["isa"] = self.isa_post
        self.tagsets = {}

    # ------------------------------------------------------------ types
    def parse_type(self, ann, mod, depth=0):
        if ann is None or depth > 6:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.parse_type(ast.parse(ann.value, mode="eval").body, mod, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.Name):
            n = ann.id
            if n in ("int", "float"):
                return ("num",)
            if n == "str":
                return ("str",)
            if n == "bool":
                return ("bool",)
            if n in ("list", "List"):
                return ("list", None)
            if n in ("dict", "Dict", "defaultdict"):
                return ("dict", None, None)
            r = self.pkg.resolve(mod, n)
            if r is None:
                return None
            if r[0] == "cls":
                return ("inst", r[1].name)
            if r[0] == "var":
                return self.parse_type(r[1], r[2], depth + 1)
            return None
        if isinstance(ann, ast.Subscript):
            b = ann.value.id if isinstance(ann.value, ast.Name) else getattr(ann.value, "attr", None)
            a = ann.slice
            if b in ("List", "list", "Sequence", "Iterable", "Set", "set"):
                if isinstance(a, ast.Tuple):
                    return ("list", ("tup", tuple(self.parse_type(x, mod, depth + 1) for x in a.elts)))
                return ("list", self.parse_type(a, mod, depth + 1))
            if b in ("Dict", "dict", "DefaultDict", "defaultdict") and isinstance(a, ast.Tuple) and len(a.elts) == 2:
                return ("dict", self.parse_type(a.elts[0], mod, depth + 1), self.parse_type(a.elts[1], mod, depth + 1))
            if b == "Optional":
                return self.parse_type(a, mod, depth + 1)
            if b in ("Tuple", "tuple") and isinstance(a, ast.Tuple):
                return ("tup", tuple(self.parse_type(x, mod, depth + 1) for x in a.elts))
            return None
        if isinstance(ann, ast.Tuple):
            return ("tup", tuple(self.parse_type(x, mod, depth + 1) for x in ann.elts))
        if isinstance(ann, ast.Call):
            f = ann.func.id if isinstance(ann.func, ast.Name) else getattr(ann.func, "attr", None)
            if f == "defaultdict":
                return ("dict", None, self.factory_type(ann.args[0] if ann.args else None, mod))
            if f in ("dict",):
                return ("dict", None, None)
            if f in ("list",):
                return ("list", None)
        if isinstance(ann, ast.BinOp):
            return self.parse_type(ann.left, mod, depth + 1)
        return None

    def factory_type(self, e, mod):
        if e is None:
            return None
        if isinstance(e, ast.Lambda):
            return self.value_type(e.body, mod)
        if isinstance(e, ast.Name):
            if e.id in ("float", "int"):
                return ("num",)
            if e.id == "list":
                return ("list", None)
            if e.id == "dict":
                return ("dict", None, None)
            if e.id == "str":
                return ("str",)
            return None
        return self.parse_type(e, mod)

    def value_type(self, e, mod):
        if isinstance(e, ast.Call):
            t = self.parse_type(e, mod)
            if t:
                return t
            if isinstance(e.func, ast.Name):
                r = self.pkg.resolve(mod, e.func.id)
                if r and r[0] == "cls":
                    return ("inst", r[1].name)
                if e.func.id in ("float", "int"):
                    return ("num",)
                if e.func.id == "list":
                    return ("list", None)
        if isinstance(e, (ast.List, ast.ListComp)):
            return ("list", None)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("dict", None, None)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return ("bool",)
            if isinstance(e.value, (int, float)):
                return ("num",)
            if isinstance(e.value, str):
                return ("str",)
        return None

    def class_attr_types(self, cname):
        r = self.cattr.get(cname)
        if r is not None:
            return r
        r = self.cattr[cname] = {}
        c = self.pkg.classes.get(cname)
        if c is None:
            return r
        for k in reversed(self.pkg.mro(c)):
            for m in k.methods.values():
                params = {}
                for a in m.node.args.args:
                    params[a.arg] = self.parse_type(a.annotation, k.mod)
                rets = [s.value for s in ast.walk(m.node) if isinstance(s, ast.Return)]
                for s in ast.walk(m.node):
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                ty = None
                                if isinstance(s.value, ast.Name):
                                    ty = params.get(s.value.id)
                                elif isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                                        and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "self":
                                    mm = self.pkg.method(k, s.value.func.attr) or self.pkg.method(k, self.mangle(s.value.func.attr, k))
                                    if mm:
                                        ty = self.parse_type(mm.node.returns, k.mod)
                                else:
                                    ty = self.value_type(s.value, k.mod)
                                n = self.mangle(t.attr, k)
                                if ty is not None and (n not in r or r[n][-1] is None):
                                    r[n] = ty
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute):
                        ty = self.parse_type(s.annotation, k.mod)
                        if ty is not None:
                            r[self.mangle(s.target.attr, k)] = ty
                if len(rets) == 1 and isinstance(rets[0], ast.Attribute) and isinstance(rets[0].value, ast.Name) \
                        and rets[0].value.id == "self":
                    ty = self.parse_type(m.node.returns, k.mod)
                    n = self.mangle(rets[0].attr, k)
                    if ty is not None and (n not in r or r[n][0] != "dict" or ty[0] == "dict"):
                        if n not in r or r[n][-1] is None or ty[0] == "dict":
                            r[n] = ty
            # properties forwarding to a private attribute
        return r

    def typeof(self, t):
        r = self.ptype.get(t)
        if r is not None:
            return r
        if t in self.tcache:
            return self.tcache[t]
        r = self._typeof(t)
        self.tcache[t] = r
        return r

    def _typeof(self, t):
        o = t.op
        if o == "obj":
            if t in self.objty:
                return self.objty[t]
            c = self.objcls.get(t)
            return ("inst", c.name) if c else None
        if o == "New":
            return ("inst", t.args[0])
        if o == "attr":
            b = self.typeof(t.args[0])
            if b is None and t.args[0].op == "val":
                return None
            if b and b[0] == "inst":
                return self.class_attr_types(b[1]).get(t.args[1])
            return None
        if o == "item":
            b = self.typeof(t.args[0])
            if b is None:
                return None
            if b[0] == "list":
                return b[1]
            if b[0] == "dict":
                return b[1]
            if b[0] == "tup":
                n = asnum(t.args[1])
                if n is not None and n < len(b[1]):
                    return b[1][int(n)]
            return None
        if o == "get":
            b = self.typeof(t.args[0])
            if b and b[0] in ("dict",):
                return b[2]
            if b and b[0] == "list":
                return b[1]
            return None
        if o == "sel":
            return self.vtype(t.args[3])
        if o == "seq":
            return ("list", None)
        if o in ("slice", "rev"):
            return self.typeof(t.args[0])
        if o in ("s", "str", "fmt"):
            return ("str",)
        if o in ("true", "false"):
            return ("bool",)
        if o == "tup":
            return ("tup", tuple(self.vtype(a) for a in t.args))
        if o in ("sum", "len", "maxf", "abs", "pow", "sum_", "floor"):
            return ("num",)
        if o == "enum":
            return ("enum", t.args[0])
        if o == "call":
            return t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tuple) and t.args[1] and t.args[1][0] != "a" else None
        if o == "map":
            return ("dict", None, None)
        if o == "val":
            return self.vtype(t.args[0])
        return None

    def vtype(self, v):
        if not isinstance(v, V):
            return self.typeof(v) if isinstance(v, T) else None
        for g, p in pieces(v):
            if p is NONE or p is UNDEF:
                continue
            t = asT(p)
            if t is None:
                return ("num",)
            return self.typeof(t)
        return None

    def is_string(self, v):
        for g, p in pieces(v):
            t = asT(p)
            if t is None:
                return False
            if t.op in ("s", "str", "fmt"):
                continue
            ty = self.typeof(t)
            if ty and ty[0] == "str":
                continue
            return False
        return True

    # ------------------------------------------------------------ class tags
    def unique_ids(self, C):
        """elements of this container have pairwise different ids (established by the city construction)"""
        if C.op != "attr":
            return False
        b = self.typeof(C.args[0])
        ty = self.typeof(C)
        return bool(b and b[0] == "inst" and b[1] == "Graph" and ty and ty[0] == "list" and ty[1] and ty[1][0] == "inst"
                    and ty[1][1] in ("Node", "Zone"))

    # registries that never list an entry twice (the addition checks of C14/C16 are the inductive steps)
    DISTINCT = {("TransportNetwork", "modes"), ("TransportNetwork", "routes_id"), ("TransportModeManager", "list_name"),
                ("TransportModeManager", "modes")}

    def distinct(self, t):
        if t.op != "attr":
            return False
        b = self.typeof(t.args[0])
        return bool(b and b[0] == "inst" and (b[1], t.args[1].split("__")[-1]) in self.DISTINCT)

    def eq_special(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "rec" and y.op == "none":
                u, v0, last, some = last_pass(x)
                if u is not None and "slot" not in (g := eq(u, NONE)).ops:
                    return gor(gand(some, truth(last(fromg(g)))), gand(gnot(some), eq(v0, NONE)))
        if a.op == "item" and b.op == "item" and a.args[0] is b.args[0] and norm.is_dict(a.args[0]):
            return eq(a.args[1], b.args[1])
        if a.op == "attr" and b.op == "attr" and a.args[1] == "id" and b.args[1] == "id":
            x, y = a.args[0], b.args[0]
            if x.op == "item" and y.op == "item" and x.args[0] is y.args[0] and self.unique_ids(x.args[0]):
                return eq(x.args[1], y.args[1])
        if a.op == b.op and a.op in ("New", "inst") and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            # objects built by the same statement: equal exactly when built in the same pass
            at = None
            xs, ys = a.args[1:], b.args[1:]
            if a.op == "inst":
                if [f for f, _ in xs[0]] != [f for f, _ in ys[0]]:
                    return None
                xs, ys = [v for _, v in xs[0]], [v for _, v in ys[0]]
            for x, y in zip(xs, ys):
                if x is y:
                    continue
                if not isinstance(x, V) or not isinstance(y, V):
                    return None
                g = eq(x, y)
                if g is FALSE:
                    return FALSE
                if at is None and g.var is not None and g.var.op == "eq" and g.hi is TRUE and g.lo is FALSE:
                    d = g.var.args[0]
                    if isplain(d) and len(d.items) == 2 and all(len(m) == 1 and m[0][1] == 1 and core.isidx(m[0][0]) for m, _ in d.items):
                        (m1, c1), (m2, c2) = d.items
                        if c1[0][0] == -c2[0][0]:
                            at = (g, m1[0][0], vt(m2[0][0]))
                    elif isplain(d):
                        # index against a constant
                        ms = [(m, c) for m, c in d.items if m]
                        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 and core.isidx(ms[0][0][0][0]) and len(d.items) <= 2:
                            (m1, c1), = ms
                            at = (g, m1[0][0], scale(sub(d, scale(vt(m1[0][0]), c1[0][0])), -1 / c1[0][0]))
            if at is not None:
                g, t1, t2 = at
                if subst(vt(a), {t1: t2}) is subst(vt(b), {t1: t2}):
                    return g
        return None

    def concrete(self, cname):
        """classes below cname that are instantiated somewhere in the package (all when none is)"""
        r = self.tagsets.get(cname)
        if r is None:
            subs = sorted(x.name for x in self.pkg.subclasses(cname))
            used = self.pkg.instantiated()
            r = tuple(x for x in subs if x in used) or tuple(subs)
            self.tagsets[cname] = r
        return r

    def family(self, cname):
        c = self.pkg.classes[cname]
        return self.pkg.mro(c)[-1].name

    def exact(self, t, k):
        """the concrete class of t is k (mutually exclusive by construction)"""
        ty = None if t.op == "sym" and t.args[0] == "p" else self.typeof(t)
        if ty and ty[0] == "inst" and ty[1] in self.pkg.classes:
            if self.family(ty[1]) != self.family(k):
                return FALSE
            tags, complete = self.concrete(ty[1]), True
        else:
            tags, complete = self.concrete(self.family(k)), False
        if k not in tags:
            return FALSE
        i = tags.index(k)
        g = TRUE
        for x in tags[:i]:
            g = gand(g, gnot(gatom(mk("isa", t, x))))
        if complete and i == len(tags) - 1:
            return g
        return gand(g, gatom(mk("isa", t, k)))

    def isa_post(self, t, k):
        p = asV(t)
        c = mk("cls", k) if k in self.pkg.classes else mk("extname", k)
        return gmap(lambda q: self.isa(q, c, True), p)

    # ------------------------------------------------------------ hooks
    def never_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y.op == "none":
                ty = self.typeof(x)
                if x.op in ("sel", "item") and ty and ty[0] == "inst":
                    return True
                if x.op in ("call",):
                    return False
                if x.op == "map" or x in self.given:
                    return True
                if x.op == "item" and self.typeof(x.args[0]) is not None:
                    return True
                if x.op == "sel":
                    vv = x.args[3]
                    return all(p is not NONE for _, p in pieces(vv)) and not any(
                        t.op == "attr" for t in [asT(vv)] if t)
                if x.op == "ext":
                    return True
            if y.op in ("s", "enum", "cls") and x.op in ("enum",):
                return True
            if y.op == "undef":
                return True
            if x.op == "New" and y.op == "New" and x.args[0] != y.args[0]:
                return True
            if x.op in ("New", "tup", "seq", "map") and y.op in ("s", "enum"):
                return True
            if x.op in ("New", "obj") and y.op == "param":
                # created during the run: not an object the caller already had
                return True
        return False

    def nonneg_t(self, t):
        return False

    def truth_t(self, t):
        ty = self.typeof(t)
        if t.op == "seq":
            return lt(ZERO, seq_len(t.args)) if not any(s[0] == "e" and s[2] is TRUE for s in t.args) else TRUE
        if t.op == "obj":
            if t in self.objcls:
                return TRUE
            return None
        if t.op == "map":
            return None
        if t.op == "fmt":
            return None
        if ty and ty[0] == "num" or t in core.finite or t.op in ("abs", "count", "len", "floor", "sum_"):
            return gand(gnot(eq(vt(t), ZERO)), gnot(eq(vt(t), NONE)))
        if ty and ty[0] == "inst" and t.op in ("item", "sel", "New"):
            return TRUE
        if ty and ty[0] in ("list",):
            return gnot(eq(length(vt(t)), ZERO))
        if ty and ty[0] == "str" and t.op not in ("str", "s"):
            return gand(gnot(eq(vt(t), string(""))), gnot(eq(vt(t), NONE)))
        if ty and ty[0] == "str" and t.op == "str":
            if any(s[0] == "e" and s[2] is TRUE and asstr(s[1]) for s in t.args):
                return TRUE
        return None

    def new_attr(self, t, name):
        """field of a value object New(cls, args...)"""
        tpl = self.template(t.args[0])
        if tpl is None:
            return None
        fields, params, events = tpl
        if name in fields:
            m = {p: a for p, a in zip(params, t.args[1:])}
            return subst(fields[name], m)
        return None

    def template(self, cname):
        if cname in self.templates:
            return self.templates[cname]
        self.templates[cname] = None
        c = self.pkg.classes.get(cname)
        init = self.pkg.method(c, "__init__")
        sub_ = type(self).__new__(type(self))
        sub_.__dict__.update(self.__dict__)
        sub_.base = sub_.fg = TRUE
        sub_.events = []
        sub_.loops = ()
        sub_.ctx = ("tpl", cname)
        sub_.callers, sub_.handlers_typed = [], []
        st = State()
        me = mk("obj", ("tpl", cname))
        sub_.objcls[me] = c
        params = []
        args = []
        if init:
            for a in init.node.args.args[1:]:
                p = mk("sym", "p", cname + "." + a.arg)
                ty = self.parse_type(a.annotation, init.mod)
                if ty:
                    self.ptype[p] = ty
                params.append(p)
                args.append(vt(p))
            sub_.call_fn(init, [vt(me)] + args, {}, st, None)
        fields = {}
        for k, v in st.store.items():
            if k[0] == "a" and k[1] is me:
                fields[k[2]] = sub_.freeze(v, st)
        evs = [e for e in sub_.events if e.kind == "raise"]
        self.templates[cname] = (fields, params, evs)
        return self.templates[cname]

    # ------------------------------------------------------------ guards / context
    def cur(self, st):
        return gand(self.base, st.rel)

    def simp(self, g, st):
        if g is TRUE or g is FALSE:
            return g
        c = gand(self.cur(st), st.facts)
        if c is TRUE:
            return g
        x = gand(c, g)
        if x is FALSE:
            return FALSE
        if x is c:
            return TRUE
        return g

    def present(self, segs, st):
        """the elements a list has on the current path"""
        if not any(x[0] in ("e", "x") and x[2] is not TRUE for x in segs):
            return segs
        out = []
        for x in segs:
            if x[0] in ("e", "x") and x[2] is not TRUE:
                g = self.simp(x[2], st)
                if g is FALSE:
                    continue
                x = (x[0], x[1], g)
            out.append(x)
        return tuple(out)

    def live(self, v, st):
        if not isinstance(v, V) or isplain(v):
            return v
        c = gand(self.cur(st), st.facts)
        if c is TRUE:
            return v
        ok = [(g, p) for g, p in pieces(v) if gand(g, c) is not FALSE]
        if len(ok) == 1:
            return ok[0][1]
        return v

    def branch(self, c, st, f1, f2):
        c = self.simp(c, st)
        if c is TRUE:
            f1(st)
            return
        if c is FALSE:
            f2(st)
            return
        b0, fg0 = self.base, self.fg
        here = self.cur(st)
        fhere = gand(self.fg, st.rel)
        s1, s2 = st.copy(), st.copy()
        s1.rel = s2.rel = TRUE
        r0 = st.rel
        self.base, self.fg = gand(here, c), gand(fhere, c)
        try:
            f1(s1)
        finally:
            self.base, self.fg = b0, fg0
        self.base, self.fg = gand(here, gnot(c)), gand(fhere, gnot(c))
        try:
            f2(s2)
        finally:
            self.base, self.fg = b0, fg0
        self.merge(c, st, s1, s2, r0)

    def merge(self, c, st, s1, s2, r0):
        if r0 is not TRUE:
            # paths that left earlier keep their values
            env, store = st.env, st.store
            if s1.dead and s2.dead:
                self.stop(st)
                return
            self.merge_live(c, st, s1, s2, r0)
            if "$brk" in env:
                st.env = self.merge_map(r0, st.env, env)
            st.store = self.merge_map(r0, st.store, store)
            return
        self.merge_live(c, st, s1, s2, r0)

    def merge_live(self, c, st, s1, s2, r0):
        if s1.dead and s2.dead:
            st.take(s1)
            st.dead = True
            return
        if s1.dead or s2.dead:
            s = s2 if s1.dead else s1
            k = gnot(c) if s1.dead else c
            f = s.facts
            r = s.rel
            st.take(s)
            st.rel = gand(r0, r)
            # the other branch never falls through
            st.facts = gand(f, gor(gnot(gand(self.base, r0)), k))
            return
        st.env = self.merge_map(c, s1.env, s2.env)
        st.store = self.merge_map(c, s1.store, s2.store)
        st.rel = gand(r0, gite(c, s1.rel, s2.rel))
        st.facts = gite(c, s1.facts, s2.facts)
        st.ret = s1.ret if s1.ret is s2.ret else gite(c, s1.ret, s2.ret)
        if s1.retv is s2.retv:
            st.retv = s1.retv
        elif s1.retv is None or s2.retv is None:
            st.retv = s1.retv if s2.retv is None else s2.retv
        else:
            st.retv = self.mergev(c, s1.retv, s2.retv)

    def merge_map(self, c, m1, m2):
        r = {}
        for k in m1:
            a = m1[k]
            b = m2[k] if k in m2 else self.initial(k, a, m2)
            r[k] = a if b is None or a is b or a == b else self.mergev(c, a, b, k)
        for k in m2:
            if k not in m1:
                a = self.initial(k, m2[k], m1)
                r[k] = m2[k] if a is None or a == m2[k] else self.mergev(c, a, m2[k], k)
        return r

    def initial(self, k, other, m):
        """content of a location that one branch did not touch (None: the location is local to the other branch)"""
        if isinstance(k, str) or not isinstance(k, tuple):
            return None
        if k[0] == "q":
            return ("q", k[1], ())
        if k[1].op == "obj":
            return None
        if k[0] == "c":
            if other[0] == "L":
                return ("L", (("x", vt(k[1]), TRUE),))
            if other[0] == "D":
                return ("D", k[1], ())
            return None
        if k[0] == "a":
            v = attr_t(k[1], k[2])
            q = m.get(("q", k[2]))
            return v if q is None else self.qlookup(q[2], k[1], v)
        return None

    def mergev(self, c, a, b, k=None):
        if isinstance(a, V):
            if a is b:
                return a
            if self.is_string(a) and self.is_string(b) and k is not None and (
                    _hasparts(a) or _hasparts(b)):
                pa, pb = list(str_parts(a)), list(str_parts(b))
                pre = []
                while pa and pb and pa[0] == pb[0]:
                    pre.append(pa.pop(0))
                    pb.pop(0)
                if pre or not (pa and pb):
                    return strv(tuple(pre) + tuple(guard_segs_str(c, pa)) + tuple(guard_segs_str(gnot(c), pb)))
            return vite(c, a, b)
        if a[0] == "L":
            s1, s2 = list(a[1]), list(b[1])
            pre = []
            while s1 and s2 and s1[0] == s2[0]:
                pre.append(s1.pop(0))
                s2.pop(0)
            return ("L", norm_segs(tuple(pre) + guard_segs(c, s1) + guard_segs(gnot(c), s2)))
        if a[0] == "D":
            w1, w2 = list(a[2]), list(b[2])
            pre = []
            while w1 and w2 and w1[0] == w2[0]:
                pre.append(w1.pop(0))
                w2.pop(0)
            return ("D", a[1], tuple(pre) + tuple(guard_writes(c, w1)) + tuple(guard_writes(gnot(c), w2)))
        if a[0] == "q":
            w1, w2 = list(a[2]), list(b[2])
            pre = []
            while w1 and w2 and w1[0] == w2[0]:
                pre.append(w1.pop(0))
                w2.pop(0)
            return ("q", a[1], tuple(pre) + tuple(guard_writes(c, w1)) + tuple(guard_writes(gnot(c), w2)))
        raise Unsupported("merge")

    # ------------------------------------------------------------ events
    def event(self, kind, what, st, data=None, g=None):
        e = Ev(kind, what, self.cur(st) if g is None else gand(self.cur(st), g), self.loops, self.where, data)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ freeze
    def freeze(self, v, st, only=None, depth=0):
        if not isinstance(v, V):
            return v
        if depth > 12:
            return v

        def ft(t):
            if only is not None and t.op == "obj" and t not in only:
                return None
            k = ("c", t)
            if k in st.store:
                return self.freeze_content(t, st, only, depth)
            if t.op == "get":
                r = self.root(t, st)
                if r is not None:
                    return self.freeze(self.lookup_loc(t, st), st, only, depth + 1)
            if t.op == "obj" and t in self.objcls:
                fs = sorted((kk[2], st.store[kk]) for kk in st.store if kk[0] == "a" and kk[1] is t)
                return vt(mk("inst", self.objcls[t].name,
                             tuple((n, self.freeze(x, st, only, depth + 1)) for n, x in fs)))
            if t.op in ("tup",):
                a = tuple(self.freeze(x, st, only, depth + 1) for x in t.args)
                if all(x is y for x, y in zip(a, t.args)):
                    return None
                return vt(mk("tup", *a))
            if t.op == "seq":
                a = tuple(self.freeze_seg(s, st, only, depth + 1) for s in t.args)
                if a == t.args:
                    return None
                return seqv(norm_segs(a))
            if t.op == "New":
                a = tuple(self.freeze(x, st, only, depth + 1) if isinstance(x, V) else x for x in t.args)
                if a == t.args:
                    return None
                return vt(mk("New", *a))
            return None

        need = False
        for m, cs in v.items:
            for t, e in m:
                if t.op in ("obj", "tup", "seq", "New", "attr", "get", "param", "item"):
                    need = True
        if not need:
            return v
        out = []
        ch = False
        for g, p in pieces(v):
            t = asT(p)
            r = ft(t) if t is not None else None
            if r is None:
                out.append((g, p))
            else:
                ch = True
                out.append((g, r))
        if not ch:
            return v
        return vsum(guarded(g, p) for g, p in out)

    def freeze_seg(self, s, st, only, depth):
        if s[0] == "e":
            return ("e", self.freeze(s[1], st, only, depth), s[2])
        if s[0] == "x":
            return s
        return ("l", s[1], s[2], tuple(self.freeze_seg(x, st, only, depth) for x in s[3]))

    def freeze_content(self, t, st, only, depth):
        c = st.store[("c", t)]
        if c[0] == "L":
            segs = tuple(self.freeze_seg(s, st, only, depth + 1) for s in c[1])
            return seqv(norm_segs(segs))
        ty = self.typeof(t)
        return self.freeze(self.map_of(t, c, (), ty, st), st, only, depth + 1)

    def map_of(self, t, c, path, ty, st):
        """extensional view of a dict content below path"""
        if not c[2]:
            if c[1] is not None:
                v = vt(c[1])
                for k in path:
                    v = get(v, k)
                return v
        k = fresh("k")
        vty = ty[2] if ty and ty[0] == "dict" else None
        p2 = path + (vt(k),)
        pres = self.dict_present(c, p2, st)
        if vty and vty[0] == "dict" or (vty is None and self.deeper(c[2], len(p2))):
            val = self.map_of(t, c, p2, vty, st)
        else:
            val = self.dict_lookup(c, p2, vty, st)
        return MAP(k, pres, val)

    def deeper(self, ws, n):
        for w in ws:
            if w[0] == "w":
                if len(w[1]) > n:
                    return True
            elif self.deeper(w[3], n):
                return True
        return False

    # ------------------------------------------------------------ dict contents
    def root(self, t, st):
        """(root term, path) when t is a location inside a dict with a content record"""
        path = []
        x = t
        while x.op == "get":
            path.append(x.args[1])
            x = x.args[0]
            c = st.store.get(("c", x))
            if c is not None and c[0] == "D":
                return x, tuple(reversed(path))
            if c is not None:
                return None
        return None

    def default_of(self, ty):
        if ty is None:
            return UNDEF
        if ty[0] == "num":
            return ZERO
        if ty[0] == "list":
            return seqv(())
        if ty[0] == "str":
            return string("")
        if ty[0] == "bool":
            return VF
        return UNDEF

    def dict_lookup(self, c, path, ty, st):
        base = c[1]
        if base is not None:
            cur = vt(base)
            for k in path:
                cur = get(cur, k)
            if ty and ty[0] == "list" and any(True for _ in c[2]):
                cur = seqv((("x", cur, TRUE),))
        else:
            cur = self.default_of(ty)
        return self.fold(cur, c[2], path, ty)

    def fold(self, cur, ws, path, ty):
        for w in ws:
            if w[0] == "w":
                _, wp, v, kind, g = w
                n = min(len(wp), len(path))
                m = g
                for a, b in zip(wp, path):
                    if m is FALSE:
                        break
                    m = gand(m, eq(a, b))
                if m is FALSE or len(wp) > len(path):
                    continue
                if kind == "set":
                    vv = v
                    for k in path[len(wp):]:
                        vv = get(vv, k)
                    cur = vite(m, vv, cur)
                elif kind == "acc":
                    cur = vite(m, self.addv(cur, v), cur) if self.is_string(v) else add(cur, guarded(m, v))
                elif kind == "app":
                    segs = self.segs_of_value(cur)
                    cur = seqv(norm_segs(segs + (("e", v, m),)))
                elif kind == "appu":
                    segs = self.segs_of_value(cur)
                    cur = seqv(norm_segs(segs + (("e", v, gand(m, gnot(contains(cur, v)))),)))
                elif kind == "ext":
                    segs = self.segs_of_value(cur)
                    cur = seqv(norm_segs(segs + guard_segs(m, self.segs_of_value(v))))
                elif kind == "del":
                    cur = vite(m, UNDEF, cur)
                else:
                    cur = vt(mk("opaque", kind, cur, v))
            else:
                cur = self.fold_loop(cur, w, path, ty)
        return cur

    def kinds(self, ws, path):
        r = set()
        for w in ws:
            if w[0] == "w":
                if len(w[1]) <= len(path) and all(eq(a, b) is not FALSE for a, b in zip(w[1], path)):
                    r.add(w[3])
            else:
                r |= self.kinds(w[3], path)
        return r

    def fold_loop(self, cur, w, path, ty):
        _, h, hi, body = w
        y = fresh("i")
        b, = open_(h, vt(y), body)
        ks = self.kinds(b, path)
        if not ks:
            return cur
        if ks == {"acc"}:
            d = self.fold(ZERO, b, path, ty)
            if self.is_string(d):
                return vt(mk("opaque", "stracc", cur, d))
            return add(cur, SUM(y, hi, d))
        if ks <= {"app", "ext"}:
            d = self.fold(seqv(()), b, path, ty)
            return seqv(norm_segs(self.segs_of_value(cur) + seg_loop(y, hi, self.segs_of_value(d))))
        if ks == {"appu"} and not self.segs_of_value(cur):
            d = self.fold(seqv(()), once(b), path, ty)
            return vt(mk("uniq", seqv(norm_segs(seg_loop(y, hi, self.segs_of_value(d))))))
        if "set" in ks:
            mark = vt(mk("mark"))
            d = self.fold(mark, b, path, ty)
            if "mark" in d.ops:
                pres = FALSE
                val = None
                for g, p in pieces(d):
                    if asT(p) is not None and asT(p).op == "mark":
                        continue
                    if "mark" in p.ops:
                        return vt(mk("opaque", "mixed", cur, d))
                    pres = gor(pres, g)
                    val = p if val is None else vite(g, p, val)
                if val is None:
                    return cur
            else:
                pres, val = TRUE, d
            return vite(EX(y, hi, pres), SEL(y, hi, pres, val), cur)
        return vt(mk("opaque", "dict", cur, tuple(sorted(ks))))

    def dict_present(self, c, path, st):
        g = FALSE
        if c[1] is not None:
            g = TRUE
            cur = vt(c[1])
            for k in path:
                g = gand(g, contains(cur, k))
                cur = get(cur, k)
            if len(path) > 1:
                # presence of the last key in the sub dict
                cur = vt(c[1])
                for k in path[:-1]:
                    cur = get(cur, k)
                g = contains(cur, path[-1])
        return gor(g, self.pres(c[2], path))

    def pres(self, ws, path):
        g = FALSE
        for w in ws:
            if w[0] == "w":
                m = w[4]
                for a, b in zip(w[1], path):
                    m = gand(m, eq(a, b))
                if w[3] == "del":
                    g = gand(g, gnot(m))
                    continue
                if len(w[1]) < len(path):
                    vv = w[2]
                    for k in path[len(w[1]):-1]:
                        vv = get(vv, k)
                    m = gand(m, contains(vv, path[-1]))
                g = gor(g, m)
            else:
                y = fresh("i")
                b, = open_(w[1], vt(y), w[3])
                g = gor(g, EX(y, w[2], self.pres(b, path)))
        return g

    def lookup_loc(self, t, st):
        r = self.root(t, st)
        rt, path = r
        c = st.store[("c", rt)]
        ty = self.typeof(t)
        if ty and ty[0] == "dict":
            return self.map_of(rt, c, path, ty, st)
        if ty is None and self.deeper(c[2], len(path)):
            return self.map_of(rt, c, path, None, st)
        return self.dict_lookup(c, path, ty, st)

    # ------------------------------------------------------------ dict keys
    def keysegs(self, ws, path):
        """keys at depth len(path) in insertion order, or None"""
        out = ()
        lvl = len(path)
        for w in ws:
            if w[0] == "w":
                m = w[4]
                for a, b in zip(w[1], path):
                    m = gand(m, eq(a, b))
                if m is FALSE:
                    continue
                if w[3] == "del":
                    return None
                if len(w[1]) <= lvl:
                    t = asT(w[2])
                    if w[3] in ("set",) and t is not None and t.op in ("seq", "map") and (
                            t.op == "seq" and not t.args or t.op == "map" and t.args[1] is FALSE) and not out:
                        continue
                    return None
                out = self.add_keys(out, (("e", w[1][lvl], m),))
                if out is None:
                    return None
                continue
            y = fresh("i")
            core.idx_hi[y] = w[2]
            b, = open_(w[1], vt(y), w[3])
            inner = self.keysegs(b, path)
            if inner is None:
                return None
            if not inner:
                continue
            new = self.loop_keys(y, w[2], inner)
            if new is None:
                return None
            out = self.add_keys(out, new)
            if out is None:
                return None
        return out

    def loop_keys(self, y, hi, inner):
        dep = False
        for s in inner:
            if s[0] == "l":
                if y in s[2].free or len(s[3]) != 1 or s[3][0][0] != "e":
                    return None
                dep = dep or y in s[3][0][1].free
            else:
                dep = dep or y in s[1].free
        if not dep:
            out = ()
            for s in inner:
                if s[0] == "e":
                    out += (("e", s[1], EX(y, hi, s[2])),)
                elif s[0] == "x":
                    out += (("x", s[1], EX(y, hi, s[2])),)
                else:
                    z = fresh("i")
                    core.idx_hi[z] = s[2]
                    (e,), = open_(s[1], vt(z), s[3])
                    out += seg_loop(z, s[2], (("e", e[1], EX(y, hi, e[2])),))
            return out
        if len(inner) != 1 or inner[0][0] != "e":
            return None
        k, m = inner[0][1], inner[0][2]
        z = fresh("i")
        core.idx_hi[z] = hi
        e = eq(k, subst(k, {y: vt(z)}))
        if gand(e, gnot(eq(vt(y), vt(z)))) is not FALSE:
            return None
        return seg_loop(y, hi, (("e", k, m),))

    def add_keys(self, out, new):
        for s in new:
            if s[0] == "e":
                pin = gand(seq_in(out, s[1]), s[2])
                g = gand(s[2], gnot(pin))
                if g is not FALSE:
                    out = out + (("e", s[1], g),)
            elif s[0] == "l":
                z = fresh("i")
                core.idx_hi[z] = s[2]
                (e,), = open_(s[1], vt(z), s[3])
                pin = seq_in(out, e[1])
                g = gand(e[2], gnot(pin))
                if g is not FALSE:
                    out = out + seg_loop(z, s[2], (("e", e[1], g),))
            else:
                if out:
                    return None
                out = out + (s,)
        return norm_segs(out)

    def dict_keys(self, c, path):
        """segments of the keys of a dict content below path, or None"""
        ks = self.keysegs(c[2], path)
        if ks is None:
            return None
        if c[1] is None:
            return ks
        b = vt(c[1])
        for k in path:
            b = get(b, k)
        return self.add_keys((("x", b, TRUE),), ks)

    # ------------------------------------------------------------ list contents
    def segs_of_value(self, v):
        if isplain(v):
            t = asT(v)
            if t is not None and t.op == "seq":
                return t.args
            if t is not None and t.op == "tup":
                return tuple(("e", a, TRUE) for a in t.args)
            if t is not None and t.op == "undef":
                return ()
            return (("x", v, TRUE),)
        out = ()
        for g, p in pieces(v):
            out += guard_segs(g, self.segs_of_value(p))
        return out

    def segs(self, v, st):
        return self.present(self.segs_all(v, st), st)

    def segs_all(self, v, st):
        """contents of a list-like value as segments"""
        v = drop_none(self.live(v, st))
        ps = pieces(v)
        out = ()
        for g, p in ps:
            t = asT(p)
            if t is not None:
                c = st.store.get(("c", t))
                if c is not None and c[0] == "L":
                    out += guard_segs(g, c[1])
                    continue
                if t.op == "get" and self.root(t, st) is not None:
                    rt, path = self.root(t, st)
                    if (self.typeof(t) or ("dict",))[0] == "dict":
                        ks = self.dict_keys(st.store[("c", rt)], path)
                        if ks is not None:
                            out += guard_segs(g, ks)
                            continue
                    v2 = self.lookup_loc(t, st)
                    if any(asT(q) is not None and asT(q) is not t and ("c", asT(q)) in st.store for _, q in pieces(v2)):
                        out += guard_segs(g, self.segs(v2, st))
                    else:
                        out += guard_segs(g, self.segs_of_value(v2))
                    continue
                if c is not None and c[0] == "D":
                    ks = self.dict_keys(c, ())
                    out += guard_segs(g, ks if ks is not None else (("x", self.freeze(p, st), TRUE),))
                    continue
            out += guard_segs(g, self.segs_of_value(p))
        return out

    def resolve(self, v, st):
        """replace container locations by their present contents (for uses inside pure terms)"""
        return self.freeze(v, st)

    def set_list(self, v, st, fn):
        """apply fn(segs)->segs on the list location(s) v, under the present guard"""
        v = drop_none(self.live(v, st))
        ps = pieces(v)
        for g, p in ps:
            t = asT(p)
            if t is None:
                raise Unsupported("list op on value")
            k = ("c", t)
            cond = gand(g, st.rel) if len(ps) > 1 else st.rel
            c = st.store.get(k)
            if c is None:
                r = self.root(t, st)
                if r is None and t.op == "get" and (self.typeof(self.rootmost(t)) or ("",))[0] == "dict":
                    rt = self.rootmost(t)
                    st.store[("c", rt)] = ("D", rt, ())
                    r = self.root(t, st)
                if r is not None:
                    rt, path = r
                    old = self.segs_of_value(self.lookup_loc(t, st))
                    new = fn(old)
                    n = len(old)
                    if new[:n] == old or n == 0 or fn(()) == new[len(new) - len(fn(())):]:
                        add_ = fn(())
                        cc = st.store[("c", rt)]
                        ws = cc[2]
                        for s in add_:
                            if s[0] == "e":
                                ws = ws + (("w", path, s[1], "app", gand(cond, s[2])),)
                            else:
                                ws = ws + (("w", path, seqv((s,)), "ext", cond),)
                        st.store[("c", rt)] = ("D", cc[1], ws)
                        self.note_write(rt, None, st)
                    else:
                        raise Unsupported("list op in dict")
                    continue
                if t.op in ("seq", "tup", "call"):
                    # value with no identity (e.g. frozen): give up
                    raise Unsupported("mutating frozen list")
                c = ("L", (("x", vt(t), TRUE),))
            if c[0] != "L":
                raise Unsupported("list op on dict")
            old = c[1]
            new = fn(old)
            if cond is not TRUE:
                n = 0
                while n < len(old) and n < len(new) and old[n] == new[n]:
                    n += 1
                new = old[:n] + guard_segs(gnot(cond), old[n:]) + guard_segs(cond, new[n:])
            st.store[k] = ("L", norm_segs(new))
            self.note_write(t, None, st)

    def rootmost(self, t):
        while t.op == "get":
            t = t.args[0]
        return t

    def note_write(self, t, name, st):
        if t.op != "obj":
            self.event("write", name or "[]", st, data=t)

    def set_sub(self, cv, key, val, st, kind="set"):
        cv = drop_none(self.live(cv, st))
        ps = pieces(cv)
        for g, p in ps:
            t = asT(p)
            if t is None:
                raise Unsupported("subscript store")
            cond = gand(g, st.rel) if len(ps) > 1 else st.rel
            c = st.store.get(("c", t))
            ty = self.typeof(t)
            if c is not None and c[0] == "L":
                self.list_set(t, key, val, st, kind)
                continue
            rt, path = (t, ())
            if c is None:
                r = self.root(t, st)
                if r is not None:
                    rt, path = r
                elif t.op == "get":
                    rt = self.rootmost(t)
                    x, path = t, []
                    while x is not rt:
                        path.append(x.args[1])
                        x = x.args[0]
                    path = tuple(reversed(path))
                    st.store[("c", rt)] = ("D", rt, ())
                elif ty and ty[0] == "list":
                    self.list_set(t, key, val, st, kind)
                    continue
                else:
                    st.store[("c", t)] = ("D", t, ())
            cc = st.store[("c", rt)]
            if cc[0] != "D":
                raise Unsupported("subscript store in list element")
            st.store[("c", rt)] = ("D", cc[1], cc[2] + (("w", path + (key,), self.resolve_val(val, st), kind, cond),))
            self.note_write(rt, None, st)

    def resolve_val(self, v, st):
        return v

    def list_set(self, t, key, val, st, kind):
        def fn(segs):
            if asnum(key) is not None and all(s[0] == "e" and s[2] is TRUE for s in segs):
                n = int(asnum(key))
                if -len(segs) <= n < len(segs):
                    s = list(segs)
                    v = val if kind == "set" else add(s[n][1], val)
                    s[n] = ("e", v, TRUE)
                    return tuple(s)
            y = fresh("i")
            old = seqv(segs)
            cur = item(old, vt(y))
            v = val if kind == "set" else add(cur, val)
            return seg_loop(y, length(old), (("e", vite(eq(vt(y), key), v, cur), TRUE),))
        self.set_list(vt(t), st, fn)

    # ------------------------------------------------------------ attributes
    def mangle(self, name, cls):
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_" + cls.name.lstrip("_") + name
        return name

    def cls_of(self, t):
        c = self.objcls.get(t)
        if c:
            return c
        ty = self.typeof(t)
        if ty and ty[0] == "inst":
            return self.pkg.classes.get(ty[1])
        return None

    def read_attr(self, v, name, st):
        v = drop_none(self.live(v, st))
        out = []
        for g, p in pieces(v):
            t = asT(p)
            if t is None:
                out.append((g, attr(p, name)))
                continue
            out.append((g, self.read_attr_t(t, name, st)))
        if len(out) == 1:
            return out[0][1]
        return vsum(guarded(g, x) for g, x in out)

    def read_attr_t(self, t, name, st):
        k = ("a", t, name)
        if k in st.store:
            v = st.store[k]
        else:
            v = None
            if t.op == "cls":
                return self.class_const(self.pkg.classes[t.args[0]], name, st)
            c = self.cls_of(t)
            if c is not None and name not in ("__class__",):
                if not (t.op == "New" and name in self.template(c.name)[0]):
                    p = self.find_property(c, name, st)
                    if p is not None:
                        return self.call_value(p[0], [vt(t)], {}, st)
                    m = self.pkg.method(c, name)
                    if m is not None:
                        if m.prop:
                            return self.call_fn(m, [vt(t)], {}, st, None)
                        return self.bound(m, vt(t))
                    for x in self.pkg.mro(c):
                        if name in x.consts and not (t.op != "obj" and name in self.class_attr_types(c.name)):
                            return self.eval_in(x.consts[name], x.mod, x, st)
            if v is None:
                v = attr_t(t, name)
        if t.op == "inst":
            for k2, v2 in st.store.items():
                if k2[0] == "a" and k2[2] == name and k2 != k and k2[1].op == "inst" and eq(vt(k2[1]), vt(t)) is not FALSE:
                    raise Unsupported("field of a loop object written")
        q = st.store.get(("q", name))
        if q is not None:
            v = self.qlookup(q[2], t, v)
        return v

    def qlookup(self, ws, t, v):
        """fields written in loops over containers: unify the written base with t"""
        for w in ws:
            if w[0] == "w":
                if w[1][0] is vt(t):
                    v = vite(w[4], w[2], v)
                elif t.op == "inst" and asT(w[1][0]) is not None and asT(w[1][0]).op == "inst":
                    v = vite(gand(w[4], eq(w[1][0], vt(t))), w[2], v)
            else:
                y = fresh("i")
                b, = open_(w[1], vt(y), w[3])
                for x in b:
                    if x[0] != "w":
                        v = vt(mk("opaque", "nested field write", v))
                        continue
                    bt = asT(x[1][0])
                    m = {}
                    if bt is not None and unify(bt, t, y, m) and y in m:
                        inr = TRUE
                        g, val = subst(x[4], {y: m[y]}), subst(x[2], {y: m[y]})
                        v = vite(g, val, v)
        return v

    def find_property(self, c, name, st):
        for x in self.pkg.mro(c):
            if name in x.methods and x.methods[name].setter:
                # @x.setter on a property: getter is the class constant or earlier def
                if name in x.consts:
                    g = self.eval_prop(x, name, st)
                    s = vt(self.fnterm(x.methods[name].node, x.mod, x, None))
                    return (g[0], s) if g else None
                gets = [n for n in x.node.body if isinstance(n, ast.FunctionDef) and n.name == name and any(
                    isinstance(d, ast.Name) and d.id == "property" for d in n.decorator_list)]
                if gets:
                    return (vt(self.fnterm(gets[0], x.mod, x, None)), vt(self.fnterm(x.methods[name].node, x.mod, x, None)))
            if name in x.consts:
                return self.eval_prop(x, name, st)
        return None

    def eval_prop(self, x, name, st):
        e = x.consts[name]
        if not isinstance(e, ast.Call):
            return None
        key = ("prop", x.name, name)
        if key in self.templates:
            return self.templates[key]
        self.templates[key] = None
        try:
            v = self.eval_in(e, x.mod, x, State())
        except Unsupported:
            return None
        t = asT(v) if v is not None else None
        if t is not None and t.op == "property":
            self.templates[key] = t.args
        return self.templates[key]

    def class_const(self, c, name, st):
        if c.isenum and name in c.consts:
            return vt(mk("enum", c.name, name))
        m = self.pkg.method(c, name)
        if m is not None:
            return vt(self.fnterm(m.node, m.mod, m.cls, None)) if not m.classm else self.bound(m, vt(mk("cls", c.name)))
        for x in self.pkg.mro(c):
            if name in x.consts:
                k = ("a", mk("cls", x.name), name)
                if k in st.store:
                    return st.store[k]
                return self.eval_in(x.consts[name], x.mod, x, st)
        if name == "__name__":
            return string(c.name)
        return vt(mk("attr", mk("cls", c.name), name))

    def write_attr(self, v, name, val, st, setter=True):
        v = drop_none(self.live(v, st))
        ps = pieces(v)
        for g, p in ps:
            t = asT(p)
            if t is None:
                raise Unsupported("attr store")
            c = self.cls_of(t)
            if setter and c is not None:
                pr = self.find_property(c, name, st)
                if pr is not None and pr[1] is not NONE:
                    self.call_value(pr[1], [vt(t), val], {}, st)
                    continue
            cond = gand(g, st.rel) if len(ps) > 1 else st.rel
            old = self.read_attr_t(t, name, st) if cond is not TRUE else None
            st.store[("a", t, name)] = val if cond is TRUE else self.mergev(cond, val, old, "a")
            self.note_write(t, name, st)

    # ------------------------------------------------------------ functions
    def fnterm(self, node, mod, cls, env):
        i = (id(node), self.ctx if env is not None else ())
        t = mk("fn", i)
        self.fns[t] = (node, mod, cls, env)
        return t

    def bound(self, m, recv):
        t = self.fnterm(m.node, m.mod, m.cls, None)
        if m.static:
            return vt(t)
        return vt(mk("bound", t, recv))

    def call_value(self, fv, args, kw, st, node=None):
        fv = drop_none(self.live(fv, st))
        ps = pieces(fv)
        if len(ps) > 1:
            res = []
            out = [None]

            def go(k, s):
                if k == len(ps) - 1:
                    return self.call_t(asT(ps[k][1]), args, kw, s, node)
                r = [None, None]
                self.branch(ps[k][0], s, lambda x: r.__setitem__(0, self.call_t(asT(ps[k][1]), args, kw, x, node)),
                            lambda x: r.__setitem__(1, go(k + 1, x)))
                if r[0] is None:
                    return r[1]
                if r[1] is None:
                    return r[0]
                return vite(ps[k][0], r[0], r[1])
            return go(0, st)
        t = asT(fv)
        return self.call_t(t, args, kw, st, node)

    def call_t(self, t, args, kw, st, node=None):
        if t is None:
            return vt(mk("opaque", "call"))
        if t.op == "fn":
            nd, mod, cls, env = self.fns[t]
            if isinstance(nd, ast.Lambda):
                return self.call_lambda(t, args, kw, st)
            f = Fn(nd, cls, mod)
            return self.call_fn(f, args, kw, st, env)
        if t.op == "bound":
            nd, mod, cls, env = self.fns[t.args[0]]
            f = Fn(nd, cls, mod)
            return self.call_fn(f, [t.args[1]] + args, kw, st, env)
        if t.op == "partial":
            return self.call_value(t.args[0], list(t.args[1:]) + args, kw, st)
        if t.op == "cls":
            return self.construct(self.pkg.classes[t.args[0]], args, kw, st)
        if t.op == "extname":
            return self.ext_call(t.args[0], args, kw, st, node)
        if t.op == "attrgetter":
            return self.read_attr(args[0], t.args[0], st)
        return vt(mk("ext", "call", (vt(t),) + tuple(self.resolve(a, st) for a in args)))

    def call_lambda(self, t, args, kw, st):
        nd, mod, cls, env = self.fns[t]
        return self._call(nd, mod, cls, env, args, kw, st, lambda s: self._lam(nd, s), "<lambda>")

    def _lam(self, nd, s):
        v = self.eval(nd.body, s)
        s.retv = v
        s.ret = TRUE

    def qualname(self, f):
        return (f.cls.name + "." if f.cls else "") + f.node.name

    def call_fn(self, f, args, kw, st, env):
        q = self.qualname(f)
        if q in self.stubs:
            f = self.stubs[q]
            return self._call(f.node, f.mod, f.cls, env, args, kw, st, lambda s: self.block(f.node.body, s), q, f)
        if q in self.atomic or f.node.name in self.atomic:
            return self.atomic_call(q, f, args, kw, st)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return self.call_generator(f, args, kw, st, env)
        return self._call(f.node, f.mod, f.cls, env, args, kw, st, lambda s: self.block(f.node.body, s), q, f)

    def call_generator(self, f, args, kw, st, env):
        def run(s):
            acc = self.alloc("gen", s)
            s.store[("c", asT(acc))] = ("L", ())
            s.env["$yield"] = acc
            self.block(f.node.body, s)
            s.dead = False
            s.rel = TRUE
            s.ret = TRUE
            s.retv = s.env["$yield"]
        return self._call(f.node, f.mod, f.cls, env, args, kw, st, run, self.qualname(f), f)

    def atomic_call(self, q, f, args, kw, st):
        a = self.bind_args(f.node, args, kw, st, f.mod, f.cls)
        vals = tuple(self.resolve(a[p.arg], st) for p in f.node.args.args if p.arg in a)
        ty = self.parse_type(f.node.returns, f.mod)
        self.event("call", q, st, data=vals)
        return vt(mk("call", q, ty or (), *vals))

    def bind_args(self, node, args, kw, st, mod, cls):
        A = node.args
        names = [a.arg for a in A.posonlyargs + A.args]
        env = {}
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            elif A.vararg:
                env.setdefault("*", []).append(v)
            else:
                raise Unsupported("too many args to %s" % getattr(node, "name", "lambda"))
        if A.vararg:
            env[A.vararg.arg] = vt(mk("tup", *env.pop("*", [])))
        for k, v in kw.items():
            env[k] = v
        nd = len(A.defaults)
        for i, d in enumerate(A.defaults):
            n = names[len(names) - nd + i]
            if n not in env:
                env[n] = self.eval_in(d, mod, cls, st)
        for a, d in zip(A.kwonlyargs, A.kw_defaults):
            if a.arg not in env and d is not None:
                env[a.arg] = self.eval_in(d, mod, cls, st)
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s of %s" % (n, getattr(node, "name", "lambda")))
        return env

    def eval_in(self, e, mod, cls, st):
        env, fs = st.env, self.fstack
        st.env = {}
        self.fstack = fs + [(mod, cls, "<const>")]
        try:
            return self.eval(e, st)
        finally:
            st.env = env
            self.fstack = fs

    def _call(self, node, mod, cls, env, args, kw, st, run, q, f=None):
        if self.depth > self.maxdepth:
            raise Unsupported("call depth")
        if sum(1 for x in self.fstack if x[2] == q and q != "<lambda>") >= 2:
            raise Unsupported("recursion " + q)
        fs = self.fstack
        if f is not None:
            self.analysed.add(q)
        newenv = self.bind_args(node, args, kw, st, mod, cls)
        saved = (st.env, st.rel, st.ret, st.retv, self.base, self.fg, self.ctx)
        self.fstack = fs + [(mod, cls, q)]
        self.callers = self.callers + [st.env]
        self.depth += 1
        self.base = gand(self.base, st.rel)
        self.fg = TRUE
        if self.callnode is not None:
            self.ctx = self.ctx + (id(self.callnode),)
        parent = env
        if env is not None:
            # closure: names resolve to the defining frame (late binding when still active)
            parent = saved[0] if saved[0].get("$frame") is env.get("$frame") else env
        st.env = newenv
        self.frames += 1
        st.env["$frame"] = self.frames
        if parent is not None:
            self.closenv.append(parent)
            st.env["$up"] = parent
        else:
            st.env.pop("$up", None)
        st.rel, st.ret, st.retv = TRUE, FALSE, None
        dead = st.dead
        before = None if saved[1] is TRUE else dict(st.store)
        try:
            run(st)
            if st.retv is None:
                v = NONE
            elif st.dead or st.rel is FALSE or f is None:
                v = st.retv
            elif st.ret is TRUE or self.simp(st.ret, st) is TRUE:
                v = st.retv
            else:
                v = vite(st.ret, st.retv, NONE)
            died = st.dead and st.ret is FALSE
        finally:
            st.env, st.rel, st.ret, st.retv, self.base, self.fg, self.ctx = saved
            self.fstack = fs
            self.callers = self.callers[:-1]
            self.depth -= 1
        if before is not None:
            # the caller may have left before the call
            if died and not dead:
                st.dead = False
                st.store = before
                self.stop(st)
                return v
            st.store = self.merge_map(saved[1], st.store, before)
        if st.dead:
            st.dead = dead or died
        return v

    callnode = None

    def construct(self, c, args, kw, st):
        init = self.pkg.method(c, "__init__")
        if c.isenum:
            return vt(mk("ext", "enum", tuple(args)))
        if self.pkg.isexc(c):
            return vt(mk("exc", c.name))
        if c.name in self.value_classes:
            tpl = self.template(c.name)
            fields, params, evs = tpl
            if init is not None:
                a = self.bind_args(init.node, [NONE] + args, kw, st, init.mod, c)
                vals = [self.live(self.freeze_new(a[p.arg], st), st) for p in init.node.args.args[1:]]
            else:
                vals = []
            m = dict(zip(params, vals))
            for e in evs:
                g = subst(e.g, m)
                g = self.simp(g, st)
                if g is FALSE:
                    continue
                loops = tuple((s, subst(hi, m)) for s, hi in e.loops)
                if any(self.exc_is(e.what, t) for types, _, _ in self.handlers_typed for t in types):
                    for s, hi in reversed(loops):
                        g = EX(s, hi, g)
                    self.do_raise(e.what, st, g)
                    st.facts = gand(st.facts, gor(gnot(self.cur(st)), gnot(g)))
                    continue
                ev = Ev("raise", e.what, gand(self.cur(st), g), self.loops + loops, e.where)
                self.events.append(ev)
                if not loops:
                    st.facts = gand(st.facts, gor(gnot(self.cur(st)), gnot(g)))

            def build(*vs):
                return vt(mk("New", c.name, *vs))
            return vmap(build, *vals) if vals and all(len(pieces(x)) < 6 for x in vals) else build(*vals)
        me = self.alloc(c.name, st)
        t = asT(me)
        self.objcls[t] = c
        for k in [k for k in st.store if k[0] == "a" and k[1] is t]:
            del st.store[k]
        if init is not None:
            self.call_fn(init, [me] + args, kw, st, None)
        return me

    def freeze_new(self, v, st):
        return v

    def alloc(self, kind, st):
        node = self.callnode
        self.slots += 1
        t = mk("obj", kind, self.ctx, id(node) if node is not None else 0)
        return vt(t)


def _hasparts(v):
    for g, p in pieces(v):
        t = asT(p)
        if t is not None and t.op in ("str",):
            return True
    return True


def guard_writes(g, ws):
    out = []
    for w in ws:
        if w[0] == "w":
            out.append(("w", w[1], w[2], w[3], gand(g, w[4])))
        else:
            out.append(("l", w[1], w[2], tuple(guard_writes(g, w[3]))))
    return out


def unify(pat, t, y, m):
    """match pat (containing symbol y) against t; solution in m[y] (a V)"""
    if y not in m and isinstance(pat, T) and pat.op == "New" and t.op == "New" and len(pat.args) == len(t.args) and pat.args[0] == t.args[0]:
        for a, b in zip(pat.args[1:], t.args[1:]):
            if isinstance(a, V) and isinstance(b, V) and isplain(a) and isplain(b) and y in a.free and y not in b.free:
                k = None
                for mo, cs in a.items:
                    if mo == ((y, Fraction(1)),):
                        k = cs[0][0]
                    elif any(y is x or y in x.free for x, _ in mo):
                        k = None
                        break
                if k:
                    e = scale(sub(b, sub(a, scale(vt(y), k))), 1 / k)
                    if subst(vt(pat), {y: e}) is vt(t):
                        m[y] = e
                        return True
    return unify0(pat, t, y, m)


def unify0(pat, t, y, m):
    """match pat (containing symbol y) against t; solution in m[y] (a V)"""
    if pat is t:
        return True
    if y not in pat.free:
        return False
    if pat is y:
        if y in m:
            return m[y] is vt(t)
        m[y] = vt(t)
        return True
    if pat.op != t.op or len(pat.args) != len(t.args):
        return False
    for a, b in zip(pat.args, t.args):
        if a is b or (not isinstance(a, (T, V)) and a == b):
            continue
        if isinstance(a, T) and isinstance(b, T):
            if not unify(a, b, y, m):
                return False
        elif isinstance(a, V) and isinstance(b, V):
            if a is vt(y):
                if y in m and m[y] is not b:
                    return False
                m[y] = b
                continue
            x, z = asT(a), asT(b)
            if x is None or z is None or not unify(x, z, y, m):
                return False
        else:
            return False
    return True
