"""Expression and statement evaluation, calls to builtins."""
import ast
from fractions import Fraction
from .core import *
from . import core, norm
from .norm import *
from .interp import Interp, State, Unsupported, UNDEF, unify, guard_writes

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}
BUILTINS = {"len", "range", "int", "float", "str", "abs", "max", "min", "sum", "list", "tuple", "dict", "set", "any",
            "all", "enumerate", "zip", "reversed", "sorted", "isinstance", "print", "bool", "round", "map", "filter",
            "open", "property", "super", "type", "getattr", "setattr", "hasattr", "iter", "next", "repr", "frozenset",
            "callable", "id", "divmod", "pow", "object", "issubclass", "vars", "format", "hash"}
EXC_PARENTS = {"ValueError": ("ValueError", "Exception", "BaseException"),
               "KeyError": ("KeyError", "LookupError", "Exception", "BaseException"),
               "IndexError": ("IndexError", "LookupError", "Exception", "BaseException"),
               "ZeroDivisionError": ("ZeroDivisionError", "ArithmeticError", "Exception", "BaseException"),
               "TypeError": ("TypeError", "Exception", "BaseException")}


class Exec(Interp):
    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        self.nodes += 1
        if self.nodes > self.maxnodes:
            raise Unsupported("budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expr " + type(e).__name__)
        v = m(e, st)
        return v

    maxnodes = 3000000

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return VT
        if v is False:
            return VF
        if isinstance(v, (int, float)):
            if v != v or v in (float("inf"), float("-inf")):
                return vt(mk("inf")) if v > 0 else neg(vt(mk("inf")))
            return num(Fraction(repr(v)) if isinstance(v, float) else v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return NONE
        raise Unsupported("const")

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def name(self, n, st):
        env = st.env
        while env is not None:
            if n in env:
                v = env[n]
                return self.live(v, st)
            env = env.get("$up")
        mod, cls, _ = self.fstack[-1]
        r = self.pkg.resolve(mod, n)
        if r is not None:
            return self.global_value(r, n, st)
        if n in BUILTINS or n in EXC_PARENTS:
            return vt(mk("extname", n))
        if n.startswith("ANY_"):
            return vt(mk("param", n))       # a free value shared by the probe and the specification
        return vt(mk("extname", n))

    def global_value(self, r, n, st):
        if r[0] == "cls":
            return vt(mk("cls", r[1].name))
        if r[0] == "fn":
            f = r[1]
            return vt(self.fnterm(f.node, f.mod, None, None))
        if r[0] == "var":
            if isinstance(r[1], ast.Call):
                # module level object: shared state; identity by definition site
                t = mk("glob", r[2].name, n)
                ty = self.parse_type(r[1], r[2])
                if ty:
                    self.ptype[t] = ty
                    return vt(t)
            return self.eval_in(r[1], r[2], None, st)
        if r[0] == "mod":
            return vt(mk("extname", r[1]))
        return vt(mk("extname", r[1]))

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        t = asT(b)
        cls = self.fstack[-1][1]
        name = self.mangle(e.attr, cls)
        if t is not None and t.op == "extname":
            full = t.args[0] + "." + name
            m = self.pkg.mods.get(t.args[0])
            if m is not None:
                r = self.pkg.resolve(m, name)
                if r is not None:
                    return self.global_value(r, name, st)
            if full == "math.inf" or full == "numpy.inf":
                return vt(mk("inf"))
            return vt(mk("extname", full))
        if name is e.attr and name.startswith("_") and "__" in name[1:] and cls is None:
            c = self.pkg.classes.get(name[1:].split("__")[0])
            raw = "__" + name[1:].split("__", 1)[1]
            if c is not None and not any(isinstance(n, ast.Attribute) and n.attr in (raw, name) for n in ast.walk(c.node)):
                raise Unsupported("private attribute %s no longer exists" % name)
        return self.read_attr(b, name, st)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = ()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    segs += self.segs(self.eval(x.value, st), st)
                else:
                    segs += (("e", self.eval(x, st), TRUE),)
            return seqv(norm_segs(segs))
        return vt(mk("tup", *[self.eval(x, st) for x in e.elts]))

    def e_List(self, e, st):
        segs = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.segs(self.eval(x.value, st), st)
            else:
                segs += (("e", self.eval(x, st), TRUE),)
        return self.newlist(e, st, norm_segs(segs))

    e_Set = e_List

    def newlist(self, e, st, segs):
        o = self.callnode
        self.callnode = e
        v = self.alloc("list", st)
        self.callnode = o
        st.store[("c", asT(v))] = ("L", segs)
        self.objty[asT(v)] = ("list", None)
        return v

    def newdict(self, e, st, ty, writes=(), base=None):
        o = self.callnode
        self.callnode = e
        v = self.alloc("dict", st)
        self.callnode = o
        st.store[("c", asT(v))] = ("D", base, tuple(writes))
        self.objty[asT(v)] = ty
        return v

    def e_Dict(self, e, st):
        ws = []
        vty = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.dict_content(self.eval(v, st), st)
                if c is None or c[1] is not None:
                    raise Unsupported("dict splat")
                ws += list(c[2])
                continue
            kv, vv = self.eval(k, st), self.eval(v, st)
            vty = self.vtype(vv) or vty
            ws.append(("w", (kv,), self.freeze(vv, st), "set", TRUE))
        return self.newdict(e, st, ("dict", None, vty if vty and vty[0] != "num" else None), ws)

    def e_Lambda(self, e, st):
        mod, cls, _ = self.fstack[-1]
        return vt(self.fnterm(e, mod, cls, st.env))

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        r = [None, None]
        self.branch(c, st, lambda s: r.__setitem__(0, self.eval(e.body, s)),
                    lambda s: r.__setitem__(1, self.eval(e.orelse, s)))
        if r[0] is None:
            return r[1]
        if r[1] is None:
            return r[0]
        return vite(c, r[0], r[1])

    def e_BoolOp(self, e, st):
        if self.boolish(e):
            return fromg(self.cond(e, st))
        v = self.eval(e.values[0], st)
        for x in e.values[1:]:
            g = self.truth(v, st)
            w = [ZERO]
            if isinstance(e.op, ast.And):
                self.branch(g, st, lambda s: w.__setitem__(0, self.eval(x, s)), lambda s: None)
                v = vite(g, w[0], v)
            else:
                self.branch(g, st, lambda s: None, lambda s: w.__setitem__(0, self.eval(x, s)))
                v = vite(g, v, w[0])
        return v

    def boolish(self, e):
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.BoolOp):
            return all(self.boolish(x) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "any", "all", "bool"):
            return True
        return False

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return fromg(gnot(self.cond(e.operand, st)))
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(BINOPS.get(type(e.op)), a, b, st, e)

    def listlike(self, v, st):
        for g, p in pieces(v):
            t = asT(p)
            if t is None:
                return False
            if t.op == "seq":
                continue
            c = st.store.get(("c", t))
            if c is not None and c[0] == "L":
                continue
            ty = self.typeof(t)
            if ty and ty[0] == "list":
                continue
            return False
        return True

    def binop(self, op, a, b, st, e=None):
        if op is None:
            raise Unsupported("binop")
        if op == "+":
            if self.is_string(a) or self.is_string(b):
                return concat(a, b)
            if self.listlike(a, st) or self.listlike(b, st):
                return self.newlist(e, st, norm_segs(self.segs(a, st) + self.segs(b, st)))
            if self.tuples(a) and self.tuples(b):
                return vmap(lambda p, q: vt(mk("tup", *(self.tuplike(p) + self.tuplike(q)))), drop_none(a), drop_none(b))
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            if self.is_string(a) and asnum(b) is not None and asstr(a) is not None:
                return string(asstr(a) * int(asnum(b)))
            for x, y in ((a, b), (b, a)):
                if self.listlike(x, st) and not self.listlike(y, st):
                    segs = self.segs(x, st)
                    n = asnum(y)
                    if n is not None and n < 5:
                        return self.newlist(e, st, norm_segs(segs * int(n)))
                    return self.newlist(e, st, seg_loop(fresh("i"), y, segs))
            return mul(a, b)
        if op == "/":
            self.zero_division(b, st)
            return div(a, b)
        if op == "**":
            n = asnum(b)
            if n is not None:
                return power(a, n)
            return vmap(lambda p, q: vt(mk("ext", "pow", (p, q))), a, b)
        if op == "//":
            self.zero_division(b, st)
            return self.floor(div(a, b))
        if op == "%":
            if self.is_string(a):
                return self.percent(a, b, st)
            self.zero_division(b, st)
            return self.mod(a, b)
        raise Unsupported("binop " + op)

    divzero = False

    def zero_division(self, b, st):
        """dividing by a value known to be zero raises; with DIVZERO, by any value where it is zero"""
        if not isinstance(b, V):
            return
        for g, p in pieces(self.live(b, st)):
            n = asnum(p)
            if n is not None:
                if n == 0:
                    self.do_raise("ZeroDivisionError", st, g)
            elif self.divzero:
                z = gand(g, eq(p, ZERO))
                if z is not FALSE:
                    self.do_raise("ZeroDivisionError", st, z)

    def floor(self, v):
        return floor_(v)

    def integral(self, p):
        return whole(p)

    def mod(self, a, b):
        def f(p, q):
            x, y = asnum(p), asnum(q)
            if x is not None and y:
                return num(x % y)
            if y is not None and y > 0 and y.denominator == 1:
                return sub(p, scale(self.floor(scale(p, 1 / y)), y))
            # one turn at most, in either direction
            r = vite(eq(p, q), ZERO, vt(mk("mod", p, q)))
            if not nonneg(p):
                r = vite(gand(lt(p, ZERO), gnot(lt(p, neg(q)))), add(p, q), r)
            return vite(gand(gnot(lt(p, ZERO)), lt(p, q)), p, r)
        return vmap(f, a, b)

    def percent(self, a, b, st):
        s = asstr(a)
        if s is None:
            return vt(mk("ext", "%", (a, b)))
        args = list(asT(b).args) if asT(b) is not None and asT(b).op == "tup" else [b]
        import re
        out = ()
        pos = 0
        for m in re.finditer(r"%([-0-9.]*)([sdfgeir%])", s):
            out += (("e", string(s[pos:m.start()]), TRUE),)
            pos = m.end()
            if m.group(2) == "%":
                out += (("e", string("%"), TRUE),)
                continue
            if not args:
                return vt(mk("ext", "%", (a, b)))
            sp = m.group(1) + (m.group(2) if m.group(2) in "fge" else "")
            out += tuple(str_parts(self.fmtv(args.pop(0), sp, st)))
        out += (("e", string(s[pos:]), TRUE),)
        return strv(out)

    def fmtv(self, v, spec, st):
        v = self.resolve(v, st)
        return fmt1(v, spec)

    def e_JoinedStr(self, e, st):
        out = ()
        for x in e.values:
            if isinstance(x, ast.Constant):
                out += (("e", string(x.value), TRUE),)
            else:
                spec = ""
                if x.format_spec is not None:
                    sv = asstr(self.eval(x.format_spec, st))
                    if sv is None:
                        raise Unsupported("format spec")
                    spec = sv
                out += tuple(str_parts(self.fmtv(self.eval(x.value, st), spec, st)))
        return strv(out)

    def e_Compare(self, e, st):
        return fromg(self.cond(e, st))

    def e_Starred(self, e, st):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    # comprehension --------------------------------------------------
    def comp(self, e, st, emit):
        """runs emit(state) for every binding of the generators"""
        env = st.env
        st.env = dict(env)

        def gen(k, s):
            if k == len(e.generators):
                emit(s)
                return
            g = e.generators[k]

            def body(s2):
                def inner(s3):
                    gen(k + 1, s3)
                c = TRUE
                if g.ifs:
                    def chain(j, s4):
                        if j == len(g.ifs):
                            inner(s4)
                            return
                        self.branch(self.cond(g.ifs[j], s4), s4, lambda s5: chain(j + 1, s5), lambda s5: None)
                    chain(0, s2)
                else:
                    inner(s2)
            self.for_each(g, g.target, self.eval(g.iter, s), body, s)
        gen(0, st)
        new = st.env
        st.env = {k: (new[k] if k.startswith("$") and k in new and k != "$up" else v) for k, v in env.items()}

    def e_ListComp(self, e, st):
        lst = self.newlist(e, st, ())
        self.comp(e, st, lambda s: self.append(lst, self.eval(e.elt, s), s))
        return lst

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        d = self.newdict(e, st, ("dict", None, None))

        def emit(s):
            k = self.eval(e.key, s)
            v = self.eval(e.value, s)
            self.set_sub(d, k, self.freeze(v, s), s)
        self.comp(e, st, emit)
        return d

    def append(self, lst, v, st):
        self.set_list(lst, st, lambda segs: segs + (("e", v, TRUE),))

    # subscript ------------------------------------------------------
    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            return self.do_slice(b, e.slice, st, e)
        k = self.eval(e.slice, st)
        return self.subscript(b, k, st)

    def tuplike(self, p):
        """the elements of a value that is a tuple of known length"""
        t = asT(p)
        if t is None:
            return None
        if t.op == "tup":
            return tuple(t.args)
        ty = self.typeof(t)
        if ty and ty[0] == "tup" and ty[1]:
            return tuple(item(vt(t), num(k)) for k in range(len(ty[1])))
        return None

    def tuples(self, v):
        if v.__class__ is not V:
            return False
        ps = [p for g, p in pieces(v) if asT(p) is None or asT(p).op != "none"]
        return bool(ps) and all(self.tuplike(p) is not None for p in ps)

    def do_slice(self, b, s, st, e):
        b = self.resolve(b, st)
        if self.tuples(b) and s.step is None:
            ks = [asnum(self.eval(x, st)) if x is not None else None for x in (s.lower, s.upper)]
            if all(x is None or k is not None for x, k in zip((s.lower, s.upper), ks)):
                lo, hi = [None if k is None else int(k) for k in ks]
                return vmap(lambda p: vt(mk("tup", *self.tuplike(p)[lo:hi])), drop_none(b))
        lo = self.eval(s.lower, st) if s.lower is not None else ZERO
        hi = self.eval(s.upper, st) if s.upper is not None else NONE
        if s.step is not None:
            k = asnum(self.eval(s.step, st))
            if k == -1 and s.lower is None and s.upper is None:
                return self.listval(rev_(b), st, e)
            if k == -1 and s.upper is None:
                # s[a::-1]
                return self.listval(rev_(slice_(b, ZERO, add(lo, ONE))), st, e)
            return vt(mk("ext", "slice", (b, lo, hi, self.eval(s.step, st))))
        return self.listval(slice_(b, lo, hi), st, e)

    def listval(self, v, st, e):
        """fresh list object with the contents of the pure sequence v"""
        t = asT(v)
        if t is not None and t.op in ("seq", "slice", "rev") and not self.is_string(v):
            return self.newlist(e, st, t.args if t.op == "seq" else (("x", v, TRUE),))
        return v

    def subscript(self, b, k, st):
        b = drop_none(self.live(b, st))
        out = []
        for g, p in pieces(b):
            t = asT(p)
            if t is None:
                out.append((g, get(p, k)))
                continue
            out.append((g, self.sub_t(t, k, st)))
        if len(out) == 1:
            return out[0][1]
        return vsum(guarded(g, x) for g, x in out)

    def only(self, segs, k, st):
        """the first element of a list filtered down to one element is its last one"""
        if k is not ZERO or len(segs) != 1 or segs[0][0] != "l" or len(segs[0][3]) != 1:
            return k
        e = segs[0][3][0]
        if e[0] != "e" or not has_bv(e[2], segs[0][1]):
            return k
        n = seq_len(segs)
        x = gand(gand(self.cur(st), st.facts), lt(ONE, n))
        try:
            if x is FALSE or self.theory.feasible(x) is None:
                return num(-1)
        except (Budget, Blowup):
            pass
        return k

    def sub_t(self, t, k, st):
        c = st.store.get(("c", t))
        ty = self.typeof(t)
        if t.op in ("tup", "slice", "rev", "range", "seq", "s"):
            if asT(k) is not None and self.is_string(k):
                return get(vt(t), k)
            if t.op == "seq":
                k = self.only(t.args, k, st)
                return item(seqv(self.present(t.args, st)), k)
            return item(vt(t), k)
        if c is not None and c[0] == "L":
            return item(seqv(self.present(c[1], st)), self.only(c[1], k, st))
        r = None
        if c is not None and c[0] == "D":
            r = (t, ())
        elif t.op == "get":
            r = self.root(t, st)
        if r is not None:
            rt, path = r
            cc = st.store[("c", rt)]
            if ty and ty[0] == "list":
                return item(self.lookup_loc(t, st), k)
            vty = ty[2] if ty and ty[0] == "dict" else None
            if vty and vty[0] in ("dict", "list") or (vty is None and self.deeper(cc[2], len(path) + 1)):
                return vt(mk("get", t, k)) if isplain(k) else vmap(lambda kk: vt(mk("get", t, kk)), k)
            return self.dict_lookup(cc, path + (k,), vty, st)
        if ty and ty[0] == "list":
            return item(vt(t), k)
        if ty and ty[0] in ("tup",):
            return item(vt(t), k)
        if ty and ty[0] == "dict":
            return vmap(lambda kk: self.getq(t, kk), k)
        # unknown container
        kn = asnum(k)
        if kn is not None or any(isidx(x) for m, cs in k.items for x, _ in m) or any(
                x.op == "len" for m, cs in k.items for x, _ in m):
            return item(vt(t), k)
        return get(vt(t), k)

    def getq(self, t, k):
        # key of the own iteration: get(D, item(D,i)) stays symbolic
        return get(vt(t), k)

    # conditions -----------------------------------------------------
    def truth(self, v, st):
        v = self.live(v, st)
        out = FALSE
        for g, p in pieces(v):
            t = asT(p)
            if t is not None:
                c = st.store.get(("c", t))
                if c is not None and c[0] == "L":
                    out = gor(out, gand(g, gnot(eq(seq_len(c[1]), ZERO))))
                    continue
                if t.op == "get":
                    ty = self.typeof(t)
                    r = self.root(t, st)
                    if r is not None and ty and ty[0] == "list":
                        out = gor(out, gand(g, gnot(eq(length(self.lookup_loc(t, st)), ZERO))))
                        continue
                    if ty and ty[0] == "dict":
                        # inner dict of a nested mapping: present and non-empty (assumed non-empty when present)
                        d = t.args[0]
                        out = gor(out, gand(g, self.contains(vt(d), t.args[1], st)))
                        continue
                if t.op == "dget":
                    out = gor(out, gand(g, contains(vt(t.args[0]), t.args[1])))
                    continue
                if c is not None and c[0] == "D":
                    out = gor(out, gand(g, gnot(eq(length(self.resolve(p, st)), ZERO))))
                    continue
            out = gor(out, gand(g, truth(p)))
        return out

    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            r = TRUE if isinstance(e.op, ast.And) else FALSE
            b0 = self.base
            try:
                for x in e.values:
                    c = self.cond(x, st)
                    if isinstance(e.op, ast.And):
                        r = gand(r, c)
                        self.base = gand(b0, r)
                    else:
                        r = gor(r, c)
                        self.base = gand(b0, gnot(r))
                    if r is FALSE and isinstance(e.op, ast.And) or r is TRUE and isinstance(e.op, ast.Or):
                        break
            finally:
                self.base = b0
            return self.simp(r, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return gnot(self.cond(e.operand, st))
        if isinstance(e, ast.Compare):
            r = TRUE
            l = self.eval(e.left, st)
            for op, x in zip(e.ops, e.comparators):
                rv = self.eval(x, st)
                r = gand(r, self.compare(op, l, rv, st))
                l = rv
            return self.simp(r, st)
        if isinstance(e, ast.NamedExpr):
            return self.simp(self.truth(self.eval(e, st), st), st)
        return self.simp(self.truth(self.eval(e, st), st), st)

    def compare(self, op, a, b, st):
        a, b = self.live(a, st), self.live(b, st)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equal(a, b, st)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return gnot(self.equal(a, b, st))
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.GtE):
            return le(b, a)
        if isinstance(op, ast.In):
            return self.contains(b, a, st)
        if isinstance(op, ast.NotIn):
            return gnot(self.contains(b, a, st))
        raise Unsupported("compare")

    def equal(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if self.listlike(x, st) and not (asT(y) is not None and asT(y).op in ("none",)):
                xs = self.segs(x, st)
                if xs == () and y is not NONE:
                    return eq(self.len_(y, st), ZERO)
        for x, y in ((a, b), (b, a)):
            # emptiness / identity of containers against None
            t = asT(x)
            if y is NONE and t is not None and ("c", t) in st.store and t.op == "obj":
                return FALSE
            if y is NONE and t is not None and t.op == "dget":
                return gnot(contains(vt(t.args[0]), t.args[1]))
            # split()[...] == '' etc. stay symbolic
        a2, b2 = self.resolve(a, st), self.resolve(b, st)
        return eq(self.strip_str(a2), self.strip_str(b2)) if self.both_str(a2, b2) else eq(a2, b2)

    def both_str(self, a, b):
        for x in (a, b):
            for g, p in pieces(x):
                t = asT(p)
                if not (t is not None and t.op == "fmt" and t.args[0][1] == ""):
                    return False
        return True

    def strip_str(self, v):
        return vmap(lambda p: asT(p).args[0][0], v)

    def contains(self, c, x, st):
        c = drop_none(self.live(c, st))
        x = self.resolve(x, st)
        out = FALSE
        for g, p in pieces(c):
            t = asT(p)
            if t is not None:
                cc = st.store.get(("c", t))
                if cc is not None and cc[0] == "L":
                    out = gor(out, gand(g, seq_in(cc[1], x)))
                    continue
                r = None
                if cc is not None and cc[0] == "D":
                    r = (t, ())
                elif t.op == "get":
                    r = self.root(t, st)
                if r is not None:
                    rt, path = r
                    ty = self.typeof(t)
                    if ty and ty[0] == "list":
                        out = gor(out, gand(g, contains(self.lookup_loc(t, st), x)))
                    else:
                        out = gor(out, gand(g, self.dict_present(st.store[("c", rt)], path + (x,), st)))
                    continue
                if t.op == "s" or self.is_string(p):
                    xs = asstr(x)
                    if t.op == "s" and xs is not None:
                        out = gor(out, gand(g, TRUE if xs in t.args[0] else FALSE))
                    else:
                        out = gor(out, gand(g, gatom(mk("ext", "strin", (x, p)))))
                    continue
                if t.op == "dkeys":
                    out = gor(out, gand(g, contains(t.args[0], x)))
                    continue
                ex = self.objcls.get(t)
            out = gor(out, gand(g, contains(p, x)))
        return out

    # calls ----------------------------------------------------------
    def e_Call(self, e, st):
        o = self.callnode
        w = self.where
        f = e.func
        # super().__init__(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            cls = self.fstack[-1][1]
            me = self.name("self", st)
            args, kw = self.args(e, st)
            for x in self.pkg.mro(cls)[1:]:
                if f.attr in x.methods:
                    self.callnode = e
                    try:
                        return self.call_fn(x.methods[f.attr], [me] + args, kw, st, None)
                    finally:
                        self.callnode = o
            return NONE
        if isinstance(f, ast.Name) and f.id in ("any", "all", "sum") and len(e.args) >= 1 and self.is_builtin(f.id, st):
            pass
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value, st)
            args, kw = self.args(e, st)
            self.callnode = e
            try:
                return self.method_call(recv, f.attr, args, kw, st, e)
            finally:
                self.callnode = o
        fv = self.eval(f, st)
        args, kw = self.args(e, st)
        self.callnode = e
        try:
            return self.call_value(fv, args, kw, st, e)
        finally:
            self.callnode = o

    def is_builtin(self, n, st):
        return True

    def args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                t = asT(v)
                segs = self.segs(v, st)
                if all(s[0] == "e" and s[2] is TRUE for s in segs):
                    args.extend(s[1] for s in segs)
                else:
                    raise Unsupported("star args")
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("kwargs")
            kw[k.arg] = self.eval(k.value, st)
        return args, kw

    def method_call(self, recv, name, args, kw, st, e):
        recv = drop_none(self.live(recv, st))
        ps = pieces(recv)
        cls = self.fstack[-1][1]
        if len(ps) > 1:
            res = []

            def go(k, s):
                if k == len(ps) - 1:
                    return self.method_t(ps[k][1], name, args, kw, s, e, cls)
                r = [None, None]
                self.branch(ps[k][0], s, lambda x: r.__setitem__(0, self.method_t(ps[k][1], name, args, kw, x, e, cls)),
                            lambda x: r.__setitem__(1, go(k + 1, x)))
                if r[0] is None or r[1] is None:
                    return r[0] if r[1] is None else r[1]
                return vite(ps[k][0], r[0], r[1])
            return go(0, st)
        return self.method_t(recv, name, args, kw, st, e, cls)

    def method_t(self, p, name, args, kw, st, e, cls):
        t = asT(p)
        mname = self.mangle(name, cls)
        if t is not None and t.op == "extname":
            m = self.pkg.mods.get(t.args[0])
            if m is not None:
                r = self.pkg.resolve(m, name)
                if r is not None:
                    return self.call_value(self.global_value(r, name, st), args, kw, st, e)
            return self.ext_call(t.args[0] + "." + name, args, kw, st, e)
        if t is not None and t.op == "cls":
            c = self.pkg.classes[t.args[0]]
            m = self.pkg.method(c, name) or self.pkg.method(c, mname)
            if m is not None:
                if m.classm:
                    return self.call_fn(m, [p] + args, kw, st, None)
                return self.call_fn(m, args, kw, st, None)
            return vt(mk("ext", "." + name, (p,) + tuple(self.resolve(a, st) for a in args)))
        if t is not None:
            c = self.cls_of(t)
            if ("a", t, mname) in st.store:
                return self.call_value(st.store[("a", t, mname)], args, kw, st, e)
            if c is None and self.typeof(t) is None and ("c", t) not in st.store:
                c = self.guess_class(name, t)
            if c is not None:
                m = self.pkg.method(c, name)
                if m is not None:
                    if m.static:
                        return self.call_fn(m, args, kw, st, None)
                    if m.classm:
                        return self.call_fn(m, [vt(mk("cls", c.name))] + args, kw, st, None)
                    return self.call_fn(m, [p] + args, kw, st, None)
                if name in ("__setattr__", "__getattribute__"):
                    n = asstr(args[0])
                    if n is None:
                        raise Unsupported("dynamic attr")
                    if name == "__setattr__":
                        self.write_attr(p, n, args[1], st)
                        return NONE
                    return self.read_attr(p, n, st)
                for x in self.pkg.mro(c):
                    if name in x.consts:
                        return self.call_value(self.read_attr(p, name, st), args, kw, st, e)
        if name in self.mstubs:
            return self.call_fn(self.mstubs[name], [p] + args, kw, st, None)
        r = self.builtin_method(p, t, name, args, kw, st, e)
        return r

    def guess_class(self, name, t):
        if name in CONTAINER_METHODS:
            return None
        cs = [c for c in self.pkg.classes.values() if name in c.methods and c.mod.name.startswith(self.pkg.pkgname)]
        if len(cs) == 1:
            return cs[0]
        return None


CONTAINER_METHODS = {"append", "extend", "get", "items", "keys", "values", "pop", "remove", "index", "count", "format",
                     "split", "join", "strip", "copy", "sort", "insert", "update", "clear", "reverse", "add", "lower",
                     "upper", "startswith", "endswith", "replace", "read", "write", "close", "readlines", "rstrip"}
