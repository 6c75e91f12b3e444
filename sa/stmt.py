"""Statements and loop summarisation."""
import ast
from .core import *
from . import core, norm
from .norm import *
from .interp import Interp, State, Unsupported, UNDEF, Ev, guard_writes
from .builtin import Builtins, seg_loop_str, asTx
from .ev import EXC_PARENTS

UNROLL = 10


class Rec:
    """one loop-carried key"""
    __slots__ = ("k", "kind", "lc", "init", "upd", "at", "isbool", "name", "deps", "exitonly")


def free_of(x):
    if isinstance(x, (V, G, T)):
        return x.free
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= free_of(y)
        return r
    return frozenset()


class Engine(Builtins):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.worklists = []
        self.loads = {}
        self.nloops = 0
        self.while_limit = 0

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead or st.rel is FALSE:
                return
            if self.cur(st) is FALSE:
                self.stop(st)
                return
            self.stmt(s, st)

    def stop(self, st):
        """control does not pass this point; paths that left earlier (return, break, continue) stay alive"""
        if st.rel is TRUE:
            st.dead = True
        else:
            st.facts = gand(st.facts, gnot(self.cur(st)))
            st.rel = FALSE

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("stmt " + type(s).__name__)
        mod, cls, q = self.fstack[-1]
        self.where = (mod.path, getattr(s, "lineno", 0), q)
        self.nodes += 1
        if self.nodes > self.maxnodes:
            raise Unsupported("budget")
        m(s, st)

    def s_Pass(self, s, st):
        pass

    s_Import = s_Global = s_Pass

    def s_ImportFrom(self, s, st):
        mod = self.fstack[-1][0]
        for a in s.names:
            src = self.pkg.mods.get(s.module or "")
            r = self.pkg.resolve(src, a.name) if src else None
            st.env[a.asname or a.name] = self.global_value(r, a.name, st) if r else vt(mk("extname", (s.module or "") + "." + a.name))

    def s_Nonlocal(self, s, st):
        raise Unsupported("nonlocal")

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, st) if s.value.value is not None else NONE
            self.append(st.env["$yield"], v, st)
            return
        if isinstance(s.value, ast.YieldFrom):
            new = self.segs_iter(self.eval(s.value.value, st), st)
            self.set_list(st.env["$yield"], st, lambda segs: segs + new)
            return
        self.eval(s.value, st)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def s_AugAssign(self, s, st):
        op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}.get(type(s.op))
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, st)
            v = self.eval(s.value, st)
            if op == "+" and self.listlike(old, st) and asT(old) is not None:
                new = self.segs_iter(v, st)
                self.set_list(old, st, lambda segs: segs + new)
                return
            self.assign(t, self.binop(op, old, v, st, s), st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            name = self.mangle(t.attr, self.fstack[-1][1])
            old = self.read_attr(b, name, st)
            v = self.eval(s.value, st)
            if op == "+" and self.listlike(old, st) and asT(old) is not None:
                new = self.segs_iter(v, st)
                self.set_list(old, st, lambda segs: segs + new)
                return
            self.write_attr(b, name, self.binop(op, old, v, st, s), st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            v = self.eval(s.value, st)
            if op in "+-" and not self.is_string(v) and not self.listlike(v, st):
                self.set_sub(b, k, v if op == "+" else neg(v), st, "acc")
                return
            old = self.subscript(b, k, st)
            if op == "+" and self.listlike(v, st):
                new = self.segs_iter(v, st)
                self.set_list(old, st, lambda segs: segs + new)
                return
            self.set_sub(b, k, self.binop(op, old, v, st, s), st)
        else:
            raise Unsupported("augassign")

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if st.rel is not TRUE and t.id in st.env and "$brk" in st.env:
                v = self.mergev(st.rel, v, st.env[t.id], "e")
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.write_attr(b, self.mangle(t.attr, self.fstack[-1][1]), v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None:
                    new = self.segs_iter(v, st)
                    self.set_list(b, st, lambda segs: new)
                    return
                raise Unsupported("slice store")
            k = self.eval(t.slice, st)
            self.set_sub(b, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported("assign target")

    def unpack(self, elts, v, st):
        if any(isinstance(x, ast.Starred) for x in elts):
            raise Unsupported("starred target")
        v = drop_none(self.live(v, st))
        segs = None
        t = asT(v)
        if t is not None and t.op in ("obj", "tup", "seq"):
            segs = self.segs(v, st)
            if len(segs) == len(elts) and all(s[0] == "e" and s[2] is TRUE for s in segs):
                for x, s in zip(elts, segs):
                    self.assign(x, s[1], st)
                return
        v = self.resolve(v, st)
        vals = [item(v, num(k)) for k in range(len(elts))]
        for x, y in zip(elts, vals):
            self.assign(x, y, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                bt = asT(drop_none(self.live(b, st)))
                if bt is not None and self.listlike(b, st):
                    self.method_t(drop_none(self.live(b, st)), "pop", [k], {}, st, s, None)
                else:
                    self.set_sub(b, k, UNDEF, st, "del")
            else:
                raise Unsupported("del")

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        if st.dead:
            return
        self.do_return(gand(self.fg, st.rel), v, st)
        st.rel = FALSE

    def do_return(self, g, v, st):
        st.retv = v if st.retv is None else self.mergev(g, v, st.retv, "r")
        st.ret = gor(st.ret, g)
        if "$ret" in st.env:
            st.env["$ret"] = vite(st.rel, VT, st.env["$ret"])

    def s_Break(self, s, st):
        st.env["$brk"] = vite(st.rel, VT, st.env["$brk"])
        st.rel = FALSE

    def s_Continue(self, s, st):
        st.rel = FALSE

    def exc_names(self, v, st):
        t = asT(v)
        if t is None:
            return None
        if t.op == "exc":
            return t.args[0]
        if t.op == "cls":
            return t.args[0]
        if t.op == "extname":
            return t.args[0]
        return None

    def exc_is(self, name, cn):
        """is exception class `name` caught by handler class `cn`"""
        if cn in ("Exception", "BaseException") or name == cn:
            return True
        if name in EXC_PARENTS:
            return cn in EXC_PARENTS[name]
        c = self.pkg.classes.get(name)
        return bool(c) and self.pkg.subclass(c, cn)

    def s_Raise(self, s, st):
        if s.exc is None:
            n = self.reraise[-1] if self.reraise else "?"
        else:
            v = self.live(self.eval(s.exc, st), st)
            ps = pieces(v)
            if len(ps) > 1:
                for g, p in ps:
                    n = self.exc_names(p, st)
                    if n is None:
                        raise Unsupported("raise")
                    self.do_raise(n, st, g)
                self.stop(st)
                return
            n = self.exc_names(v, st)
            if n is None:
                raise Unsupported("raise")
        if st.dead:
            return
        self.do_raise(n, st)
        self.stop(st)

    reraise = []

    def do_raise(self, n, st, g=TRUE):
        for types, caught, depth in reversed(self.handlers_typed):
            if any(self.exc_is(n, c) for c in types):
                env = st.env if depth == len(self.callers) else self.callers[depth]
                caught.append((n, gand(self.cur(st), g), (dict(env), dict(st.store))))
                return
        self.event("raise", n, st, g=g)

    handlers_typed = []

    def perr(self, kind, v, st):
        if asnum(v) is not None:
            return
        ty = self.vtype(v)
        if ty and ty[0] in ("num", "bool"):
            return
        self.do_raise("ValueError", st, gatom(mk("perr", kind, v)))

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)

        def bad(x):
            self.do_raise("AssertionError", x)
            x.dead = True
        self.branch(c, st, lambda x: None, bad)

    def s_Try(self, s, st):
        hs = []
        for h in s.handlers:
            if h.type is None:
                ts = ["BaseException"]
            else:
                t = asT(self.eval(h.type, st))
                if t is None:
                    raise Unsupported("except")
                ts = [asT(x).args[0] for x in t.args] if t.op == "tup" else [t.args[0]]
            hs.append((ts, [], len(self.callers)))
        pre = st.copy()
        ev0 = len(self.events)
        self.handlers_typed = self.handlers_typed + list(reversed(hs))
        try:
            self.block(s.body, st)
        finally:
            self.handlers_typed = self.handlers_typed[:len(self.handlers_typed) - len(hs)]
        if not st.dead:
            self.block(s.orelse, st)
        end = st.store
        for (ts, caught, _), h in zip(hs, s.handlers):
            if not caught:
                continue
            g = gany(x[1] for x in caught)
            hpre = pre

            def handler(x, h=h, caught=caught, hpre=hpre):
                x.env, x.store = dict(hpre.env), dict(hpre.store)
                for n, c, snap in reversed(caught):
                    if snap is not None:
                        x.env = self.merge_map(c, snap[0], x.env)
                        x.store = self.merge_map(c, snap[1], x.store)
                if h.name:
                    x.env[h.name] = vt(mk("exc", caught[0][0]))
                self.reraise = self.reraise + [caught[0][0]]
                try:
                    self.block(h.body, x)
                finally:
                    self.reraise = self.reraise[:-1]
                if not x.dead and x.rel is not FALSE and any(snap is None for _, _, snap in caught) \
                        and any(k in end and end[k] != v for k, v in hpre.store.items()):
                    raise Unsupported("handler of a loop that wrote")
            if st.dead:
                d = pre.copy()
                st.take(d)
                st.facts = pre.facts
                self.branch(g, st, handler, lambda x: setattr(x, "dead", True))
            else:
                facts = st.facts
                st.facts = pre.facts
                st.rel = gor(st.rel, g)
                self.branch(g, st, handler, lambda x: setattr(x, "facts", facts))
        if not st.dead:
            self.block(s.finalbody, st)

    def s_With(self, s, st):
        for w in s.items:
            v = self.eval(w.context_expr, st)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, v, st)
        self.block(s.body, st)

    def s_FunctionDef(self, s, st):
        mod, cls, _ = self.fstack[-1]
        st.env[s.name] = vt(self.fnterm(s, mod, cls, st.env))

    # ------------------------------------------------------------ loops: front ends
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        it = self.positions(s.iter, it, st, s.body)
        self.cur_body_reads(s)
        self.for_each(s, s.target, it, lambda x: self.block(s.body, x), st, s.orelse)

    def positions(self, e, it, st, body=()):
        """range(len(L)) of a list with several parts: the positions of each part"""
        it = self.live(it, st)
        if not all(asT(p) is not None and asT(p).op == "range" for _, p in pieces(it)) or not (
                isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Call) and len(e.args[0].args) == 1 and
                isinstance(e.args[0].func, ast.Name) and e.args[0].func.id == "len" and
                isinstance(e.args[0].args[0], (ast.Name, ast.Attribute))):
            return it
        n = len(self.events)
        pass
        l = self.live(self.eval(e.args[0].args[0], st), st)
        if len(self.events) != n or asT(l) is None:
            return it
        try:
            segs = self.segs(l, st)
            pass
        except Unsupported:
            return it
        n = self.live(length(seqv(segs)), st)
        if self.live(vmap(lambda b: vt(mk("range", ZERO, b, ONE)), self.settle(n, st)), st) is not it or \
                not any(x[0] == "l" for x in segs) or not (len(segs) > 1 or len(segs[0][3]) > 1):
            return it
        # positions counted from the end are not those of a single part
        if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "len" for b in body for y in ast.walk(b)) and \
                any(y[2] is not TRUE for x in segs for y in (x[3] if x[0] == "l" else (x,)) if y[0] == "e"):
            return it
        out = []
        off = ZERO
        for x in segs:
            if x[0] == "e":
                out.append(("e", off, x[2]))
                off = add(off, guarded(x[2], ONE))
            elif x[0] == "l" and all(y[0] == "e" and y[2] is x[3][0][2] for y in x[3]) and not has_bv(x[3][0][2], x[1]):
                k, on = len(x[3]), x[3][0][2]
                y = fresh("i")
                core.idx_hi[y] = x[2]
                at = lambda j: add(norm.assume(on, off), add(mul(vt(y), num(k)), num(j)))
                out.extend(seg_loop(y, x[2], tuple(("e", at(j), on) for j in range(k))))
                off = add(off, guarded(on, mul(x[2] if nonneg(x[2]) else vite(lt(ZERO, x[2]), x[2], ZERO), num(k))))
            else:
                return it
        return vt(mk("seq", *out))

    def cur_body_reads(self, s):
        pass

    def for_each(self, node, target, iterV, body, st, orelse=()):
        def run(s, v):
            self.assign(target, v, s)
            body(s)
        self.iterate(node, iterV, run, st, orelse)

    def iterate(self, node, iterV, run, st, orelse=()):
        iterV = drop_none(self.live(iterV, st))
        ps = pieces(iterV)
        if len(ps) > 1 and not any(asT(p) is None for _, p in ps):
            def go(k, s):
                if k == len(ps) - 1:
                    self.iterate1(node, ps[k][1], run, s, orelse)
                    return
                self.branch(ps[k][0], s, lambda x: self.iterate1(node, ps[k][1], run, x, orelse), lambda x: go(k + 1, x))
            go(0, st)
            return
        self.iterate1(node, iterV, run, st, orelse)

    def iterate1(self, node, v, run, st, orelse=()):
        saved = {k: st.env.get(k) for k in ("$brk", "$ret")}
        r0 = st.rel
        st.env["$brk"] = VF
        st.env["$ret"] = VF
        doms = self.domains(v, st)
        for n, d in enumerate(doms):
            if st.dead or st.rel is FALSE:
                break
            ctx = self.ctx
            if len(doms) > 1:
                self.ctx = ctx + (("u", n),)
            try:
                nb = gnot(truth(st.env["$brk"]))
                if nb is FALSE:
                    break
                self.branch(nb, st, lambda s: self.run_dom(node, d, run, s), lambda s: None)
            finally:
                self.ctx = ctx
        if st.dead:
            return
        brk, ret = truth(st.env["$brk"]), truth(st.env["$ret"])
        for k in saved:
            if saved[k] is None:
                st.env.pop(k, None)
            else:
                st.env[k] = saved[k]
        if saved["$ret"] is not None and ret is not FALSE:
            st.env["$ret"] = vite(gand(r0, ret), VT, saved["$ret"])
        st.rel = gand(r0, gnot(ret))
        if orelse:
            self.branch(gnot(brk), st, lambda s: self.block(orelse, s), lambda s: None)

    def domains(self, v, st):
        """list of domains: ('e', V, G) | ('n', hi, fn(i)->[segs]) """
        t = asT(v)
        if t is not None:
            if t.op == "enumerate":
                inner = self.domains(t.args[0], st)
                out = []
                off = t.args[1]
                for d in inner:
                    if d[0] == "e":
                        out.append(("e", vt(mk("tup", off, d[1])), d[2]))
                        off = add(off, guarded(d[2], ONE))
                    else:
                        f, hi, o = d[2], d[1], off
                        probe = f(vt(fresh("i")))
                        if len(probe) != 1 or probe[0][0] != "e" or probe[0][2] is not TRUE:
                            raise Unsupported("enumerate over filtered")
                        out.append(("n", hi, lambda i, f=f, o=o: (("e", vt(mk("tup", add(i, o), f(i)[0][1])), TRUE),)))
                        off = add(off, hi)
                return out
            if t.op == "zip":
                ds = [self.domains(a, st) for a in t.args]
                if all(all(x[0] == "e" and x[2] is TRUE for x in d) for d in ds):
                    return [("e", vt(mk("tup", *[x[1] for x in row])), TRUE) for row in zip(*ds)]
                fs = []
                hi = None
                for a in t.args:
                    s = self.segs_iter(a, st)
                    n = seq_len(s)
                    av = seqv(s)
                    fs.append(av)
                    if hi is None:
                        hi = n
                    elif n is not hi:
                        hi = vmin(hi, n)
                return [("n", hi, lambda i: (("e", vt(mk("tup", *[item(a, i) for a in fs])), TRUE),))]
            if t.op == "range":
                lo, hi, k = t.args
                n = asnum(range_span(t))
                if n is not None and n <= UNROLL:
                    return [("e", add(lo, mul(k, num(j))), TRUE) for j in range(int(n))]
                if asnum(k) is None or abs(asnum(k)) != 1:
                    return [("n", range_span(t), lambda i: (("e", add(lo, mul(k, i)), TRUE),))]
                return [("n", range_span(t), lambda i: (("e", add(lo, mul(k, i)), TRUE),))]
            if t.op == "file":
                l = mk("lines", t)
                self.ptype[l] = ("list", ("str",))
                return self.domains(vt(l), st)
            if t.op == "s":
                return [("e", string(c), TRUE) for c in t.args[0]]
            if t.op in ("dvals", "ditems"):
                d0 = vt(t.args[0])
                kind = t.op

                def wrap(k):
                    x = self.subscript(d0, k, self.now)
                    return x if kind == "dvals" else vt(mk("tup", k, x))
                out = []
                for d in self.domains(d0, st):
                    if d[0] == "e":
                        self.now = st
                        out.append(("e", wrap(d[1]), d[2]))
                    else:
                        f = d[2]

                        def g(i, f=f):
                            r = f(i)
                            if any(x[0] != "e" for x in r):
                                raise Unsupported("nested dict domain")
                            return tuple(("e", wrap(x[1]), x[2]) for x in r)
                        out.append(("n", d[1], g))
                return out
        out = []
        for s in self.segs(v, st):
            if s[0] == "e":
                out.append(s)
            elif s[0] == "x":
                n = asnum(length(s[1]))
                c = s[1]
                ct = asT(c)
                if ct is not None and ct.op == "range":
                    ds = self.domains(c, st)
                    if s[2] is not TRUE:
                        raise Unsupported("guarded range")
                    out.extend(ds)
                    continue
                out.append(("n", length(c), lambda i, c=c, g=s[2]: (("e", item(c, i), g),)))
            else:
                out.append(("n", s[2], lambda i, s=s: open_(s[1], i, s[3])[0]))
        return out

    now = None

    def run_dom(self, node, d, run, st):
        if d[0] == "e":
            self.unrolled(lambda s: self.branch(d[2], s, lambda x: run(x, d[1]), lambda x: None), st)
            return
        hi = d[1]
        n = asnum(hi)
        if n is not None and n <= UNROLL:
            for k in range(int(n)):
                ctx = self.ctx
                self.ctx = ctx + (("u", k),)
                try:
                    nb = gnot(truth(st.env["$brk"]))
                    if nb is FALSE or st.dead:
                        break
                    self.branch(nb, st, lambda s: self.unrolled(lambda x: self.nest(node, d[2](num(k)), run, x), s), lambda s: None)
                finally:
                    self.ctx = ctx
            return

        def body(s, i):
            self.now = s
            self.nest(node, d[2](i), run, s)
        self.core_loop(node, hi, body, st)

    def unrolled(self, f, st):
        """one iteration executed in line: continue/break only end the iteration"""
        r0 = st.rel
        ret0 = truth(st.env["$ret"])
        f(st)
        if st.dead:
            return
        ret = truth(st.env["$ret"])
        st.rel = gand(r0, gor(ret0, gnot(ret))) if ret is not ret0 else r0

    def nest(self, node, segs, run, st):
        """run over the (open) segments of one index value"""
        for k, s in enumerate(segs):
            if s[0] == "e":
                g = s[2]
                self.branch(g, st, lambda x: run(x, s[1]), lambda x: None)
            elif s[0] == "x":
                self.branch(s[2], st, lambda x: self.sub_loop(node, k, length(s[1]), lambda y, i: run(y, item(s[1], i)), x),
                            lambda x: None)
            else:
                self.sub_loop(node, k, s[2], lambda y, i: self.nest(node, open_(s[1], i, s[3])[0], run, y), st)

    def sub_loop(self, node, k, hi, body, st):
        """inner domain of the same source loop: break leaves both levels"""
        ctx = self.ctx
        self.ctx = ctx + (("n", k),)
        try:
            self.core_loop(node, hi, body, st)
        finally:
            self.ctx = ctx
        st.rel = gand(st.rel, gnot(truth(st.env["$brk"])))

    # ------------------------------------------------------------ while
    def s_While(self, s, st):
        if self.while_limit:
            self.while_unrolled(s, st, self.while_limit)
            return
        wl = self.worklist_expr(s)
        if wl is not None:
            v = drop_none(self.live(self.eval(wl, st), st))
            t = asT(v)
            if t is not None and self.listlike(v, st) and st.store.get(("c", t), ("L",))[0] == "L":
                self.while_worklist(s, t, st)
                return
        self.while_counter(s, st)

    def while_unrolled(self, s, st, n):
        """at most n iterations executed in line; what remains after them must be unreachable"""
        saved = {k: st.env.get(k) for k in ("$brk", "$ret")}
        r0 = st.rel
        st.env["$brk"] = VF
        st.env["$ret"] = VF

        def stop(y):
            y.env["$brk"] = VT
            y.rel = FALSE

        def turn(last):
            def go(x):
                c = self.cond(s.test, x)
                def again(y):
                    if last:
                        raise Unsupported("while bound")
                    self.block(s.body, y)
                self.branch(c, x, again, stop)
            return go
        for k in range(n + 1):
            ctx = self.ctx
            self.ctx = ctx + (("u", k),)
            try:
                nb = gnot(truth(st.env["$brk"]))
                if nb is FALSE or st.dead or st.rel is FALSE:
                    break
                self.branch(nb, st, lambda x: self.unrolled(turn(k == n), x), lambda x: None)
            finally:
                self.ctx = ctx
        if st.dead:
            return
        ret = truth(st.env["$ret"])
        for k in saved:
            if saved[k] is None:
                st.env.pop(k, None)
            else:
                st.env[k] = saved[k]
        if saved["$ret"] is not None and ret is not FALSE:
            st.env["$ret"] = vite(gand(r0, ret), VT, saved["$ret"])
        st.rel = gand(r0, gnot(ret))
        if s.orelse:
            raise Unsupported("while-else")

    def worklist_expr(self, s):
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = t.left, t.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len":
                if isinstance(r, ast.Constant) and (r.value == 0 and isinstance(t.ops[0], (ast.NotEq, ast.Gt)) or
                                                    r.value == 1 and isinstance(t.ops[0], ast.GtE)):
                    t = l.args[0]
                else:
                    return None
            elif isinstance(r, ast.List) and not r.elts and isinstance(t.ops[0], ast.NotEq):
                t = l
            else:
                return None
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len":
            t = t.args[0]
        if not isinstance(t, (ast.Name, ast.Attribute)):
            return None
        d = ast.dump(t)
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "popleft") \
                    and ast.dump(n.func.value) == d:
                return t
        return None

    def while_worklist(self, s, t, st):
        init = self.segs(vt(t), st)
        init = tuple(self.freeze_seg(x, st, None, 0) for x in init)
        if not init:
            return
        w = fresh("w")
        ety = self.seg_type(init)
        if ety:
            self.ptype[w] = ety
        saved = {k: st.env.get(k) for k in ("$brk", "$ret")}
        r0 = st.rel
        st.env["$brk"] = VF
        st.env["$ret"] = VF
        key = ("c", t)
        pushes = [None]

        def setup(x):
            x.store[key] = ("L", ())

        def body(x, i):
            self.worklists.append((t, vt(w)))
            try:
                self.block(s.body, x)
            finally:
                self.worklists.pop()

        def finish(x, lcs):
            c = x.store.pop(key)
            p = tuple(self.freeze_seg(q, x, None, 0) for q in c[1])
            if free_of(p) & lcs:
                raise Unsupported("worklist depends on carried state")
            h, (b,) = bind(w, p)
            C = vt(mk("work", h, seqv(init), b))
            return C
        self.core_loop(s, None, body, st, setup=setup, finish=finish, elem=w)
        if st.dead:
            return
        st.store[key] = ("L", ())
        for k in saved:
            if saved[k] is None:
                st.env.pop(k, None)
            else:
                st.env[k] = saved[k]
        ret = gand(r0, gnot(st.rel))
        if saved["$ret"] is not None and ret is not FALSE:
            st.env["$ret"] = vite(ret, VT, saved["$ret"])
        if s.orelse:
            raise Unsupported("while-else")

    def seg_type(self, segs):
        for x in segs:
            if x[0] == "e":
                return self.vtype(x[1])
            if x[0] == "x":
                ty = self.vtype(x[1])
                return ty[1] if ty and ty[0] == "list" else None
            y = fresh("i")
            b, = open_(x[1], vt(y), x[3])
            return self.seg_type(b)
        return None

    def while_counter(self, s, st):
        """while k < N: ...; k += 1"""
        saved = {k: st.env.get(k) for k in ("$brk", "$ret")}
        r0 = st.rel
        st.env["$brk"] = VF
        st.env["$ret"] = VF

        def body(x, i):
            c = self.cond(s.test, x)
            self.while_test = c
            def stop(y):
                y.env["$brk"] = VT
                y.rel = FALSE
            self.branch(c, x, lambda y: self.block(s.body, y), stop)
        self.core_loop(s, None, body, st, counter=True)
        if st.dead:
            return
        for k in saved:
            if saved[k] is None:
                st.env.pop(k, None)
            else:
                st.env[k] = saved[k]
        ret = gand(r0, gnot(st.rel))
        if saved["$ret"] is not None and ret is not FALSE:
            st.env["$ret"] = vite(ret, VT, saved["$ret"])
        if s.orelse:
            raise Unsupported("while-else")

    # ------------------------------------------------------------ loop core
    def loaded_outside(self, node, name):
        fn = self.fnode[-1] if self.fnode else None
        if fn is None:
            return True
        k = (id(fn), id(node))
        r = self.loads.get(k)
        if r is None:
            inner = {id(n) for n in ast.walk(node)}
            r = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inner:
                    r.add(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and id(n) not in inner:
                    r.add(n.target.id)
            self.loads[k] = r
        return name in r

    fnode = []

    def _call(self, node, mod, cls, env, args, kw, st, run, q, f=None):
        self.fnode = self.fnode + [node]
        try:
            return super()._call(node, mod, cls, env, args, kw, st, run, q, f)
        finally:
            self.fnode = self.fnode[:-1]

    def init_of(self, k, st):
        if isinstance(k, str):
            return st.env.get(k)
        if k in st.store:
            return st.store[k]
        if k[0] == "a":
            v = None
            q = st.store.get(("q", k[2]))
            v = attr_t(k[1], k[2])
            if q is not None:
                v = self.qlookup(q[2], k[1], v)
            return v
        if k[0] == "q":
            return ("q", k[1], ())
        return None     # content kind decided from the changed value

    def changed_keys(self, st, s, start, sym):
        out = []
        for k, v in s.env.items():
            if k.startswith("$"):
                continue
            if k in start:
                if v is not start[k]:
                    out.append(k)
            elif k not in st.env or v is not st.env[k]:
                out.append(k)
        for k, v in s.store.items():
            if k in start:
                if v != start[k]:
                    out.append(k)
            elif k in st.store:
                if v != st.store[k]:
                    out.append(k)
            elif k[0] == "q" or k[1].op != "obj":
                if k[0] == "c":
                    d = ("L", (("x", vt(k[1]), TRUE),)) if v[0] == "L" else ("D", k[1], ())
                    if v == d:
                        continue
                out.append(k)
        return out

    def core_loop(self, node, hi, body, st, setup=None, finish=None, elem=None, counter=False):
        if hi is not None and self.simp(lt(ZERO, hi), st) is FALSE:
            return
        self.nloops += 1
        sym = fresh("i")
        if hi is not None:
            core.idx_hi[sym] = hi
        i = vt(sym)
        ck = (id(node), self.ctx)
        changed = dict.fromkeys(self.changed_cache.get(ck, ()))
        saved = (self.events, self.base, self.fg, self.loops)
        evs = None
        mark = [len(h[1]) for h in self.handlers_typed]
        for pas in range(7):
            for h, n in zip(self.handlers_typed, mark):
                del h[1][n:]
            s = st.copy()
            s.rel, s.ret, s.retv = TRUE, FALSE, None
            s.env["$brk"] = s.env["$ret"] = VF
            recs, start = {}, {}
            for k in changed:
                if not isinstance(k, str) and k[0] != "q" and sym not in k[1].free and k[1].free - self.scope_syms(st) and False:
                    continue
                r = self.mk_lc(k, st, s)
                if r is not None:
                    recs[k] = r
                    start[k] = s.env[k] if isinstance(k, str) else s.store[k]
            if setup:
                setup(s)
                start.update({k: s.store[k] for k in s.store if k not in start and k in st.store and s.store[k] != st.store[k]})
            self.events = []
            self.base, self.fg, self.loops = self.cur(st), TRUE, ()
            try:
                body(s, i)
            finally:
                evs = self.events
                self.events, self.base, self.fg, self.loops = saved
            if s.dead:
                break
            new = [k for k in self.changed_keys(st, s, start, sym) if k not in changed]
            if setup:
                new = [k for k in new if k not in start]
            if not new:
                break
            for k in new:
                changed[k] = None
        else:
            raise Unsupported("loop fixpoint")
        self.changed_cache[ck] = tuple(changed)
        lcs = frozenset(r.lc for r in recs.values() if r.lc is not None)
        if s.dead:
            if hi is None:
                raise Unsupported("while raises")
            self.emit(evs, {}, sym, hi, TRUE, FALSE, st)
            st.facts = gand(st.facts, gor(gnot(self.cur(st)), gnot(lt(ZERO, hi))))
            return
        # values at the end of one iteration, with iteration-local objects frozen
        pre_objs = {k[1] for k in st.store if k[0] in "ac"}
        local = {k[1] for k in s.store if k[0] in "ac" and k[1].op == "obj" and k[1] not in pre_objs}
        extra = {}
        if finish:
            C = finish(s, lcs)
            hi = length(C)
            core.idx_hi[sym] = hi
            extra = {elem: item(C, i)}
        B, R = truth(s.env["$brk"]), truth(s.env["$ret"])
        retv = self.freeze_loc(s.retv, s, local) if s.retv is not None else None
        todo = []
        temps = []
        qs = []
        for k in changed:
            end = s.env.get(k) if isinstance(k, str) else s.store.get(k)
            if end is None:
                continue
            r = recs.get(k)
            if r is None:
                r = self.mk_rec(k, st)
            if k in start and (end is start[k] or end == start[k]):
                continue
            r.upd = self.freeze_loc(end, s, local)
            if r.lc is None and isinstance(k, str):
                temps.append(r)
            elif not isinstance(k, str) and k[0] == "q":
                qs.append(r)
            elif not isinstance(k, str) and sym in k[1].free:
                qs.append(r)
            elif not isinstance(k, str) and elem is not None and elem in k[1].free:
                qs.append(r)
            else:
                todo.append(r)
        if extra:
            B, R = subst(B, extra), subst(R, extra)
            if retv is not None:
                retv = subst(retv, extra)
            for r in todo + temps + qs:
                r.upd = self.sub_content(r.upd, extra)
        X = gor(B, R)
        M = {}
        if counter:
            hi, X, B = self.find_counter(todo, X, B, sym, M)
            core.idx_hi[sym] = hi
        L = LoopCtx(self, sym, hi, X)
        for r in qs:
            if r.lc is not None and r.k[0] == "a":
                M[r.lc] = r.init    # a cell of this iteration only: nobody wrote it before
        self.resolve_keys(L, todo, M, lcs)
        X, B, R = L.X, self.subm(B, M), self.subm(R, M)
        # events
        self.emit(evs, {**M, **extra}, sym, hi, L.ne(i), X, st)
        for h, n in zip(self.handlers_typed, mark):
            h[1][n:] = [(x, EX(sym, hi, gand(self.subm(subst(c, extra), M), L.ne(i))), None) for x, c, _ in h[1][n:]]
        # final state
        rel = st.rel
        for r in todo:
            v = r.at(hi)
            self.put(r, v, st, rel)
        for r in temps:
            if not self.loaded_outside(node, r.k) or isinstance(node, ast.comprehension):
                st.env.pop(r.k, None)
                continue
            u = self.subm(r.upd, M)
            if lcs & free_of(u):
                st.env.pop(r.k, None)
                continue
            st.env[r.k] = L.last(hi, TRUE, u)
        for r in qs:
            self.put_q(r, L, M, st, sym, hi)
        if B is not FALSE:
            e = L.exn(hi, B)
            st.env["$brk"] = vite(gand(rel, e), VT, st.env["$brk"])
        if R is not FALSE:
            e = L.exn(hi, R)
            v = L.seln(hi, R, self.subm(retv, M))
            g = gand(gand(self.fg, rel), e)
            st.retv = v if st.retv is None else self.mergev(g, v, st.retv, "r")
            st.ret = gor(st.ret, g)
            st.env["$ret"] = vite(gand(rel, e), VT, st.env["$ret"])
            st.rel = gand(rel, gnot(e))

    def scope_syms(self, st):
        return frozenset()

    def subm(self, x, M):
        if not M or x is None:
            return x
        for _ in range(4):
            y = self.sub_content(x, M)
            if y is x or y == x:
                return y
            x = y
        return x

    def sub_content(self, c, m):
        if not m:
            return c
        if isinstance(c, (V, G, T)):
            return subst(c, m)
        s = Subst(m)
        if c[0] == "L":
            return ("L", norm_segs(s.any(c[1])))
        if c[0] == "D":
            b = c[1]
            if b is not None:
                bv = s.any(b)
                b = bv if isinstance(bv, T) else asTx(bv)
            return ("D", b, self.sub_writes(c[2], s))
        if c[0] == "q":
            return ("q", c[1], self.sub_writes(c[2], s))
        return s.any(c)

    def sub_writes(self, ws, s):
        out = []
        for w in ws:
            if w[0] == "w":
                g = s.any(w[4])
                if g is FALSE:
                    continue
                out.append(("w", s.any(w[1]), s.any(w[2]), w[3], g))
            else:
                y = fresh("b")
                b = open_(w[1], vt(y), w[3])[0]
                hi = s.any(w[2])
                b = self.sub_writes(b, s)
                if not b:
                    continue
                h, (bb,) = bind(y, b)
                out.append(("l", h, hi, bb))
        return tuple(out)

    def freeze_loc(self, v, s, local):
        if not local:
            return v
        if isinstance(v, V):
            return self.freeze(v, s, local)
        if v[0] == "L":
            return ("L", norm_segs(tuple(self.freeze_seg(x, s, local, 0) for x in v[1])))
        if v[0] == "D":
            return ("D", v[1], self.freeze_writes(v[2], s, local))
        if v[0] == "q":
            return ("q", v[1], self.freeze_writes(v[2], s, local))
        return v

    def freeze_writes(self, ws, s, local):
        return tuple(("w", w[1], self.freeze(w[2], s, local), w[3], w[4]) if w[0] == "w" else
                     ("l", w[1], w[2], self.freeze_writes(w[3], s, local)) for w in ws)

    def mk_rec(self, k, st):
        r = Rec()
        r.k = k
        r.lc = None
        r.init = self.init_of(k, st)
        r.kind = "v"
        r.isbool = False
        r.at = None
        r.exitonly = False
        if not isinstance(k, str):
            r.kind = {"a": "v", "c": "c", "q": "q"}[k[0]]
        return r

    def mk_lc(self, k, st, s):
        if not isinstance(k, str) and k[0] == "q":
            r = self.mk_rec(k, st)
            s.store.setdefault(k, ("q", k[1], ()))
            return r
        if isinstance(k, str) and k not in st.env:
            return None
        if not isinstance(k, str) and k[1].op == "obj" and k not in st.store:
            return None
        r = self.mk_rec(k, st)
        name = k if isinstance(k, str) else (k[2] if k[0] == "a" else "c")
        core._fresh[0] += 1
        lc = r.lc = mk("lc", core._fresh[0], name)
        if r.kind == "v":
            init = r.init
            if all(p in (VT, VF) for _, p in pieces(init)):
                r.isbool = True
                v = fromg(gatom(lc))
            else:
                ty = self.vtype(init)
                if ty:
                    self.ptype[lc] = ty
                    if ty[0] in ("list", "dict"):
                        v = None
                if asT(init) is not None and asT(init).op == "s" or self.is_string(init):
                    self.ptype[lc] = ("str",)
                v = vt(lc)
            if isinstance(k, str):
                s.env[k] = v
            else:
                s.store[k] = v
            return r
        # container content
        t = k[1]
        ty = self.typeof(t)
        if ty:
            self.ptype[lc] = ty
        init = r.init
        if init is None:
            init = ("L", (("x", vt(t), TRUE),)) if ty and ty[0] == "list" else ("D", t, ())
            r.init = init
        r.kind = init[0]
        if init[0] == "L":
            self.ptype.setdefault(lc, ("list", self.seg_type(init[1])))
            s.store[k] = ("L", (("x", vt(lc), TRUE),))
        else:
            self.ptype.setdefault(lc, ("dict", None, None))
            s.store[k] = ("D", lc, ())
        return r

    # ------------------------------------------------------------ key resolution
    def resolve_keys(self, L, todo, M, lcs):
        live = [r for r in todo]
        X = L.X
        # keys that change only on the exiting iteration keep their initial value in the body
        for r in live:
            if X is not FALSE and r.at is None and self.only_on_exit(r, X):
                r.exitonly = True
                M[r.lc] = self.as_value(r, r.init)
        ups = {}
        L.X = X = self.subm(X, M)
        for r in live:
            if r.at is not None:
                M.setdefault(r.lc, self.as_value(r, r.at(vt(L.sym))))
        L.X = X = self.subm(X, M)
        pending = [r for r in live if r.at is None]
        # X must be resolved before anything that is not exit-only
        guard = 0
        while pending:
            guard += 1
            if guard > 200:
                raise Unsupported("loop resolution")
            progress = False
            unresolved = {r.lc for r in pending if not r.exitonly}
            X = L.X = self.subm(L.X, M)
            xready = not (X.free & unresolved)
            if xready:
                self.growing(L, pending, unresolved, M)
            elif self.running(L, pending, unresolved, M):
                continue
            for r in list(pending):
                u = self.subm(r.upd, {k: v for k, v in M.items() if k is not r.lc or r.exitonly})
                deps = free_of(u) & unresolved - {r.lc}
                if deps:
                    continue
                if not xready and not (X.free & unresolved == {r.lc} and False):
                    continue
                at = self.classify(L, r, u)
                if at is None:
                    continue
                r.at = at
                if not r.exitonly and r.lc not in M:
                    M[r.lc] = self.as_value(r, at(vt(L.sym)))
                pending.remove(r)
                progress = True
                unresolved.discard(r.lc)
            if progress:
                continue
            # strongly connected remainder -> recurrence group
            grp = self.scc(pending, M, L)
            self.rec_group(L, grp, M)
            for r in grp:
                pending.remove(r)
        L.X = self.subm(L.X, M)

    def running(self, L, pending, unresolved, M):
        """numbers that the exit condition reads and that every pass changes in the same way: value at pass i"""
        hit = False
        i = vt(L.sym)
        for r in pending:
            if r.kind != "v" or r.isbool or r.exitonly or r.lc not in L.X.free or r.lc in M or not isinstance(r.init, V):
                continue
            u = self.subm(r.upd, {k: v for k, v in M.items() if k is not r.lc})
            if free_of(u) & unresolved != {r.lc}:
                continue
            if any(r.lc in g.free for m, cs in u.items for _, g in cs):
                continue
            d = sub(u, vt(r.lc))
            start = None
            if r.lc in d.free:
                a = eq(i, ZERO)
                if a.var is None or a.hi is not TRUE or a.lo is not FALSE:
                    continue
                start, d = gcof_v(u, a.var, True), gcof_v(d, a.var, False)
                if r.lc in start.free or L.sym in start.free or r.lc in d.free:
                    continue
            if d is ZERO and start is None:
                continue
            y = fresh("i")
            if start is None:
                at = add(r.init, SUM(y, i, subst(d, {L.sym: vt(y)})))
            else:
                y2 = sub(i, ONE)
                at = vite(eq(i, ZERO), r.init, add(start, SUM(y, y2, subst(d, {L.sym: add(vt(y), ONE)}))))
            M[r.lc] = at
            r.upd = subst(u, {r.lc: at})
            hit = True
        return hit

    def growing(self, L, pending, unresolved, M):
        """lengths of the lists that only grow, by an amount that does not depend on unknown values"""
        for r in pending:
            n = mk("len", r.lc)
            if r.kind != "L" or r.exitonly or n in M or not any(r.lc in free_of(q.upd) for q in pending):
                continue
            u = self.subm(r.upd, {k: v for k, v in M.items() if k is not r.lc})
            if u[0] != "L" or not u[1] or u[1][0] != ("x", vt(r.lc), TRUE):
                continue
            cnt = seq_len(u[1][1:])
            if not cnt.free & unresolved:
                M[n] = add(seq_len(r.init[1]), L.sumn(vt(L.sym), cnt))

    def only_on_exit(self, r, X):
        u = r.upd
        if r.kind == "v":
            if r.isbool:
                g = truth(u)
                return implies(gand(gxor(g, gatom(r.lc)), TRUE), X)
            ch = FALSE
            for g, p in pieces(u):
                if p is not vt(r.lc):
                    ch = gor(ch, g)
            return implies(ch, X)
        if r.kind == "L":
            if u[0] != "L" or not u[1] or u[1][0] != ("x", vt(r.lc), TRUE):
                return False
            return all(s[0] == "e" and implies(s[2], X) or s[0] == "x" and implies(s[2], X) for s in u[1][1:])
        if r.kind == "D":
            return all(w[0] == "w" and implies(w[4], X) for w in u[2])
        return False

    def as_value(self, r, c):
        if isinstance(c, V):
            return c
        if c[0] == "L":
            return seqv(c[1])
        if c[0] == "D":
            t = r.k[1]
            if c[1] is not None and not c[2]:
                return vt(c[1])
            return self.map_of(t, c, (), self.typeof(t), None)
        raise Unsupported("content")

    def scc(self, pending, M, L):
        """a minimal group of mutually dependent keys"""
        unresolved = {r.lc: r for r in pending}
        deps = {}
        for r in pending:
            u = self.subm(r.upd, {k: v for k, v in M.items() if k is not r.lc})
            d = set(free_of(u) & set(unresolved))
            d |= L.X.free & set(unresolved)
            deps[r.lc] = d

        def reach(x):
            seen = set()
            todo = [x]
            while todo:
                y = todo.pop()
                for z in deps.get(y, ()):
                    if z not in seen:
                        seen.add(z)
                        todo.append(z)
            return seen
        best = None
        for r in pending:
            c = reach(r.lc) | {r.lc}
            if best is None or len(c) < len(best):
                best = c
        return [unresolved[x] for x in sorted(best, key=lambda t: t.id)]

    def rec_group(self, L, grp, M):
        sym, hi = L.sym, L.hi
        i = vt(sym)
        slots = {}
        order = list(grp)
        useX = L.X is not FALSE and bool(L.X.free & {r.lc for r in grp})
        inits, ups = [], []
        xl = None
        smap = {}
        for n, r in enumerate(order):
            smap[r.lc] = vt(mk("slot", sym, n))
            ty = self.ptype.get(r.lc)
        if useX:
            nx = len(order)
            xs = gatom(mk("slot", sym, nx))
        for r in order:
            u = self.subm(r.upd, {k: v for k, v in M.items() if k is not r.lc})
            v = self.as_value(r, u)
            if r.isbool:
                smap[r.lc] = fromg(gatom(mk("slot", sym, order.index(r))))
            if useX:
                v = vite(xs, vt(r.lc) if not r.isbool else fromg(gatom(r.lc)), v)
            elif L.X is not FALSE:
                v = vite(L.ne(i), v, vt(r.lc) if not r.isbool else fromg(gatom(r.lc)))
            inits.append(self.as_value(r, r.init))
            ups.append(v)
        if useX:
            inits.append(VF)
            ups.append(fromg(gor(xs, self.subm(L.X, M))))
        ups = tuple(subst(v, smap) for v in ups)
        inits = tuple(inits)
        h, (b,) = bind(sym, ups)

        def at_n(n):
            def at(bound):
                return vt(mk("rec", h, bound, inits, n, b))
            return at
        for n, r in enumerate(order):
            f = at_n(n)
            if r.isbool:
                r.at = lambda bound, f=f: fromg(gatom(asT(f(bound))))
            elif r.kind == "L":
                r.at = lambda bound, f=f: ("L", (("x", f(bound), TRUE),))
            elif r.kind == "D":
                r.at = lambda bound, f=f: ("D", asT(f(bound)), ())
            else:
                r.at = f
            ty = self.ptype.get(r.lc)
            if ty:
                self.rectype[(h, inits, n, b)] = ty
            M[r.lc] = self.as_value(r, r.at(i))
        if useX:
            f = at_n(len(order))
            L.xrec = lambda bound: gatom(asT(f(bound)))

    rectype = {}

    def _typeof(self, t):
        if t.op == "rec":
            r = self.rectype.get((t.args[0],) + t.args[2:])
            return r
        if t.op == "work":
            s = asT(t.args[1])
            return ("list", self.seg_type(s.args)) if s is not None and s.op == "seq" else None
        if t.op == "lines":
            return ("list", ("str",))
        if t.op == "uniq":
            return self.vtype(t.args[0])
        if t.op in ("without", "popped"):
            return self.vtype(t.args[0]) if isinstance(t.args[0], V) else self.typeof(t.args[0])
        return super()._typeof(t)

    # ------------------------------------------------------------ classification
    def classify(self, L, r, u):
        if r.kind == "v":
            if r.exitonly:
                return self.cl_exit(L, r, u)
            return self.cl_value(L, r, u)
        if r.kind == "L":
            return self.cl_list(L, r, u)
        if r.kind == "D":
            return self.cl_dict(L, r, u)
        raise Unsupported("key")

    def cl_exit(self, L, r, u):
        lc, init = r.lc, r.init
        i0 = r.init
        if r.isbool:
            g = truth(u)
            # M maps lc to init already
            gi = truth(init)
            up, dn = gand(g, gnot(gi)), gand(gnot(g), gi)
            return lambda b: fromg(gand(gor(gi, L.exn(b, up)), gnot(L.exn(b, dn))))
        d = sub(u, init)
        ch = FALSE
        for g, p in pieces(u):
            if p is not init:
                ch = gor(ch, g)
        ch = gand(ch, L.X) if not implies(ch, L.X) else ch
        return lambda b: vite(L.exn(b, ch), L.seln(b, ch, u), init)

    def cl_value(self, L, r, u):
        lc, init = r.lc, r.init
        if r.isbool:
            g = truth(u)
            u1, u0 = gcof(g, lc, True), gcof(g, lc, False)
            if lc in u1.free or lc in u0.free:
                return None
            gi = truth(init)
            if u1 is u0:
                return lambda b: vite(L.some(b, TRUE), L.last(b, TRUE, fromg(u1)), init)
            if u1 is TRUE:
                return lambda b: fromg(gor(gi, L.exn(b, u0)))
            if u0 is FALSE:
                return lambda b: fromg(gand(gi, gnot(L.exn(b, gnot(u1)))))
            if gand(gnot(u1), u0) is FALSE:
                s, c = gand(u1, u0), gand(gnot(u1), gnot(u0))
                m = gor(s, c)
                return lambda b: vite(L.exn(b, m), L.last(b, m, fromg(s)), init)
            return None
        if self.ptype.get(lc) == ("str",):
            parts = list(str_parts(u))
            first = ("e", vt(mk("fmt", (vt(lc), ""))), TRUE)
            if parts and parts[0] == first:
                rest = tuple(parts[1:])
                if lc in free_of(rest):
                    rest = self.by_emptiness(L, lc, init, rest)
                if rest is not None:
                    return lambda b: strv(tuple(str_parts(init)) + L.strloop(b, rest))
        d = sub(u, vt(lc))
        if lc not in d.free:
            return lambda b: add(init, L.sumn(b, d))
        keep = FALSE
        vals = []
        for g, p in pieces(u):
            if p is vt(lc):
                keep = gor(keep, g)
            elif lc in p.free:
                return None
            else:
                vals.append((g, p))
        if not vals:
            return lambda b: init
        m = gnot(keep)
        if lc not in m.free and not any(lc in g.free for g, _ in vals):
            v = self.joinv(vals)
            return lambda b: vite(L.exn(b, m), L.last(b, m, v), init)
        # one-shot: guarded by a test that the initial value passes and the new value fails
        g1 = self.joing(vals, {lc: init})
        ok = True
        for g, p in vals:
            for g2, p2 in vals:
                if subst(g2, {lc: p}) is not FALSE:
                    ok = False
        if ok and lc not in g1.free:
            v = self.joinv([(subst(g, {lc: init}), p) for g, p in vals])
            return lambda b: vite(L.exn(b, g1), L.seln(b, g1, v), init)
        return self.cl_max(L, r, u, vals)

    def by_emptiness(self, L, lc, init, rest):
        """pieces appended to a text that depend on it only through the test whether it is still empty"""
        emp, one, two = string(""), string("x"), string("yy")
        r1, r0, r2 = (Subst({lc: c}).any(rest) for c in (emp, one, two))
        if r0 != r2 or lc in free_of(r1) or lc in free_of(r0):
            return None
        e0 = eq(init, emp)
        if e0 is TRUE:
            ne = text_present(r1)
            if ne is None:
                return None
            e = gnot(L.exn(vt(L.sym), ne))
        elif e0 is FALSE:
            e = FALSE
        else:
            return None

        def g1(g):
            return gite(e, subst(g, {lc: emp}), subst(g, {lc: one})) if lc in g.free else g

        def v1(v):
            return vite(e, subst(v, {lc: emp}), subst(v, {lc: one})) if lc in v.free else v

        def seg(s):
            if s[0] == "l":
                y = fresh("b")
                b, = open_(s[1], vt(y), s[3])
                h, (b,) = bind(y, tuple(seg(x) for x in b))
                return ("l", h, v1(s[2]), b)
            return (s[0], v1(s[1]), g1(s[2]))
        return tuple(seg(s) for s in rest)

    def joinv(self, vals):
        if len(vals) == 1:
            return vals[0][1]
        return vsum(guarded(g, p) for g, p in vals)

    def joing(self, vals, m):
        return gany(subst(g, m) for g, p in vals)

    def cl_max(self, L, r, u, vals):
        lc, init = r.lc, r.init
        res = []
        sense = None
        for g, p in vals:
            none = None
            for a in gsupp(g):
                if a is not None and a.op == "eq" and a.args[0] in (sub(vt(lc), NONE), sub(NONE, vt(lc))):
                    none = a
            gn = None
            if none is not None:
                gn, g = gcof(g, none, True), gcof(g, none, False)
            less, greater = lt(vt(lc), p), lt(p, vt(lc))
            eqa = eq(vt(lc), p)
            cofs = {}
            for nm, (vl, vg, ve) in (("l", (1, 0, 0)), ("g", (0, 1, 0)), ("e", (0, 0, 1))):
                x = g
                # assign the atoms of the three-way order
                for at in set(gsupp(less) | gsupp(greater) | gsupp(eqa)):
                    if at is None:
                        continue
                    if at.op == "eq":
                        x = gcof(x, at, bool(ve))
                    elif at.op == "lt":
                        d = at.args[0]
                        # d < 0 ; d is +-(lc - p)
                        if d is sub(vt(lc), p):
                            x = gcof(x, at, bool(vl))
                        elif d is sub(p, vt(lc)):
                            x = gcof(x, at, bool(vg))
                        else:
                            # scaled
                            co = [c for m_, cs in d.items if m_ == ((lc, F1),) for c, _ in cs]
                            if not co:
                                return None
                            x = gcof(x, at, bool(vl if co[0] > 0 else vg))
                cofs[nm] = x
            if any(lc in x.free for x in cofs.values()):
                return None
            if cofs["g"] is FALSE and cofs["l"] is not FALSE:
                sn = 1
                gg = cofs["l"]
            elif cofs["l"] is FALSE and cofs["g"] is not FALSE:
                sn = -1
                gg = cofs["g"]
            else:
                return None
            if sense is not None and sense != sn:
                return None
            sense = sn
            if gn is not None and init is NONE and gn is not gg:
                return None
            if none is None and init is NONE:
                return None
            res.append((gg, p))
        g = gany(x for x, _ in res)
        v = self.joinv(res)
        if init is NONE:
            inf = vt(mk("inf"))
            return lambda b: vite(L.exn(b, g), L.maxn(b, g, v, neg(inf) if sense > 0 else inf, sense), NONE)
        return lambda b: L.maxn(b, g, v, init, sense)

    def cl_list(self, L, r, u):
        lc, init = r.lc, r.init
        if u[0] != "L":
            return None
        segs = u[1]
        if r.exitonly:
            n = len(init[1])
            if tuple(segs[:n]) == tuple(init[1]):
                rest = segs[n:]
                return lambda b: ("L", norm_segs(init[1] + L.segloop(b, rest)))
            return None
        if segs and segs[0] == ("x", vt(lc), TRUE):
            rest = segs[1:]
            if not rest:
                return lambda b: init
            if lc in free_of(rest):
                n = mk("len", lc)
                cnt = seq_len(rest)
                if lc not in cnt.free:
                    def ln(b):
                        return add(seq_len(init[1]), L.sumn(b, cnt))
                    r2 = self.sub_content(("L", rest), {n: ln(vt(L.sym))})[1]
                    if lc not in free_of(r2):
                        return lambda b: ("L", norm_segs(init[1] + L.segloop(b, r2)))
                if len(rest) == 1 and rest[0][0] == "e":
                    v, g = rest[0][1], rest[0][2]
                    a = contains(vt(lc), v)
                    if lc not in v.free and a.var is not None and a.hi is TRUE and a.lo is FALSE:
                        g1, g0 = gcof(g, a.var, True), gcof(g, a.var, False)
                        if g1 is FALSE and lc not in g0.free:
                            here = self.fg
                            return lambda b: ("L", seg_of(uniqv(init[1] + L.segloop(b, (("e", v, g0),)), here)))
                return None
            return lambda b: ("L", norm_segs(init[1] + L.segloop(b, rest)))
        if len(segs) == 1 and segs[0][0] == "x" and segs[0][2] is TRUE and asT(segs[0][1]) is not None \
                and asT(segs[0][1]).op == "uniq":
            # elements appended unless present, by an inner loop
            t = asT(asV(asT(segs[0][1]).args[0]))
            if t is not None and t.op == "seq" and t.args[0] == ("x", vt(lc), TRUE) and lc not in free_of(t.args[1:]):
                rest, here = t.args[1:], self.fg
                return lambda b: ("L", seg_of(uniqv(init[1] + L.segloop(b, rest), here)))
        if lc not in free_of(segs):
            if L.X is FALSE:
                return lambda b: ("L", norm_segs(guard_segs(L.some(b, TRUE), self.sub_content(("L", segs), {L.sym: sub(b, ONE)})[1]) +
                                                 guard_segs(gnot(L.some(b, TRUE)), init[1])))
        return None

    def cl_dict(self, L, r, u):
        lc, init = r.lc, r.init
        if u[0] != "D" or u[1] is not lc:
            if u[0] == "D" and r.exitonly and u[1] is init[1]:
                n = len(init[2])
                ws = u[2][n:] if u[2][:n] == init[2] else u[2]
                return lambda b: ("D", init[1], init[2] + L.writeloop(b, ws))
            return None
        ws = self.simplify_writes(u[2], lc, r)
        if lc in free_of(ws):
            # read of the cell being written, each cell visited once: previous content
            ws = self.own_cell(L, r, ws, lc)
            if ws is None:
                return None
        return lambda b: ("D", init[1], init[2] + L.writeloop(b, ws))

    def simplify_writes(self, ws, lc, r):
        out = []
        numd = None
        for w in ws:
            if w[0] == "l":
                y = fresh("i")
                core.idx_hi[y] = w[2]
                b, = open_(w[1], vt(y), w[3])
                b2 = self.simplify_writes(b, lc, r)
                if b2:
                    h, (bb,) = bind(y, tuple(b2))
                    out.append(("l", h, w[2], bb))
                continue
            _, path, v, kind, g = w
            cell = vt(lc)
            cont = None
            for k in path:
                cont = cell
                cell = get(cell, k)
            ina = contains(cont, path[-1])
            av = ina.var if ina.var is not None and ina.hi is TRUE and ina.lo is FALSE else None
            if kind == "set" and lc in v.free | g.free:
                if av is not None:
                    # default initialisation: if k not in d: d[k] = 0 / []
                    g1, g0 = gcof(g, av, True), gcof(g, av, False)
                    if g1 is FALSE and lc not in g0.free and (v is ZERO or self.empty(v)):
                        if v is ZERO:
                            w = ("w", path, ZERO, "acc", g0)
                        else:
                            w = ("w", path, seqv(()), "ext", g0)
                        out.append(w)
                        continue
                    v1, v0 = gcof_v(v, av, True), gcof_v(v, av, False)
                    d = sub(v1, cell)
                    g1, g0 = gcof(g, av, True), gcof(g, av, False)
                    if d is v0 and g1 is g0 and lc not in d.free and lc not in g1.free:
                        out.append(("w", path, d, "acc", g1))
                        continue
                d = sub(v, cell)
                if lc not in d.free and lc not in g.free:
                    out.append(("w", path, d, "acc", g))
                    continue
            elif kind == "app" and lc in g.free and once_only(g, cell, v, lc) is not None:
                w = ("w", path, v, "appu", once_only(g, cell, v, lc))
            elif av is not None and lc in g.free and kind in ("acc", "app", "ext"):
                g1, g0 = gcof(g, av, True), gcof(g, av, False)
                if g1 is g0:
                    g = g1
                    w = ("w", path, v, kind, g)
            out.append(w)
        # set(0|[]) immediately followed/preceded by acc on complementary guards: if k in d: d[k]+=w else: d[k]=w
        if len(out) == 2 and all(w[0] == "w" for w in out) and out[0][1] == out[1][1]:
            a, b = out
            cont = vt(lc)
            for k in a[1][:-1]:
                cont = get(cont, k)
            ina = contains(cont, a[1][-1])
            if ina.var is not None and a[2] is b[2] and {a[3], b[3]} == {"set", "acc"}:
                g = gor(a[4], b[4])
                if lc not in g.free and lc not in a[2].free:
                    return (("w", a[1], a[2], "acc", g),)
            if ina.var is not None and {a[3], b[3]} == {"set", "app"}:
                s, p = (a, b) if a[3] == "set" else (b, a)
                t = asT(s[2])
                if t is not None and t.op == "seq" and len(t.args) == 1 and t.args[0][0] == "e" and t.args[0][1] is p[2]:
                    g = gor(a[4], b[4])
                    if lc not in g.free:
                        return (("w", a[1], p[2], "app", g),)
        return tuple(out)

    def empty(self, v):
        t = asT(v)
        return t is not None and t.op == "seq" and not t.args

    def own_cell(self, L, r, ws, lc):
        init = self.as_value(r, r.init)
        pre = r.init
        # value read through the prefix of the loop
        for w in ws:
            if w[0] != "w":
                return None
        def pv(b):
            return self.as_value(r, ("D", pre[1], pre[2] + L.writeloop(b, tuple(
                ("w", w[1], vt(mk("mark")), w[3], w[4]) for w in ws))))
        if any(lc in free_of(w[1]) or lc in w[4].free for w in ws):
            return None
        m = pv(vt(L.sym))
        out = []
        for w in ws:
            v = subst(w[2], {lc: m})
            if "mark" in v.ops:
                return None
            out.append(("w", w[1], v, w[3], w[4]))
        return tuple(out)

    # ------------------------------------------------------------ results
    def put(self, r, v, st, rel):
        k = r.k
        if isinstance(k, str):
            if rel is not TRUE and "$brk" in st.env and k in st.env:
                v = self.mergev(rel, v, st.env[k], "e")
            st.env[k] = v
            return
        if rel is not TRUE:
            old = st.store.get(k)
            if old is None:
                old = r.init
            v = self.mergev(rel, v, old, k)
        st.store[k] = v

    def put_q(self, r, L, M, st, sym, hi):
        if r.k[0] == "q":
            name = r.k[1]
            old = st.store.get(r.k, ("q", name, ()))
            u = self.subm(r.upd, M)
            new = u[2][len(old[2]):] if u[2][:len(old[2])] == old[2] else u[2]
            new = L.writeloop(hi, new)
        elif r.k[0] == "a":
            name = r.k[2]
            old = st.store.get(("q", name), ("q", name, ()))
            u = self.subm(r.upd, {k: v for k, v in M.items() if k is not r.lc})
            kt = vt(r.k[1])
            wg = TRUE
            if r.lc is not None:
                same = FALSE
                for g, p in pieces(u):
                    if p is vt(r.lc):
                        same = gor(same, g)
                if same is not FALSE:
                    wg = gnot(same)
                    rest = [(g, p) for g, p in pieces(u) if p is not vt(r.lc)]
                    if len(rest) == 1:
                        u = rest[0][1]
                u = subst(u, {r.lc: r.init})
            new = L.writeloop(hi, (("w", (kt,), u, "set", wg),))
        else:
            raise Unsupported("container element write in a loop")
        if st.rel is not TRUE:
            new = tuple(guard_writes(st.rel, list(new)))
        st.store[("q", name)] = ("q", name, old[2] + new)

    def emit(self, evs, M, sym, hi, ne, X, st):
        for e in evs:
            g = self.subm(e.g, M)
            if ne is not TRUE and not implies(g, X):
                g = gand(g, ne)
            if g is FALSE:
                continue
            loops = ((sym, hi),) + tuple((s, self.subm(h, M)) for s, h in e.loops)
            data = e.data
            if data is not None and M:
                data = subst(data, M) if isinstance(data, (V, T, G)) else Subst(M).any(data)
            ev = Ev(e.kind, e.what, g, loops, e.where, data)
            self.events.append(ev)
            if e.kind == "raise" and len(gsupp(g)) <= 6:
                # going on: no pass raised
                try:
                    for s, h in reversed(loops):
                        g = EX(s, h, g)
                    st.facts = gand(st.facts, gor(gnot(self.cur(st)), gnot(g)))
                except Blowup:
                    pass

    def find_counter(self, todo, X, B, sym, M):
        c = self.while_test
        for r in todo:
            if r.kind != "v" or r.isbool:
                continue
            d = None
            # X contains "not test": the update is under the test
            u = r.upd
            for g, p in pieces(u):
                x = sub(p, vt(r.lc))
                if asnum(x) in (1, -1):
                    d = asnum(x)
            if d is None:
                continue
            for a in gsupp(c):
                if a is None or a.op not in ("lt", "eq") or r.lc not in a.free:
                    continue
                z = a.args[0]
                if not isplain(z):
                    continue
                co = [cs[0][0] for m_, cs in z.items if m_ == ((r.lc, F1),)]
                if not co:
                    continue
                rest = scale(sub(z, scale(vt(r.lc), co[0])), -1 / co[0])
                if r.lc in rest.free or any(q.lc in rest.free for q in todo):
                    continue
                for N in (rest, add(rest, ONE), sub(rest, ONE)):
                    t = lt(vt(r.lc), N) if d == 1 else lt(N, vt(r.lc))
                    t2 = gnot(eq(vt(r.lc), N))
                    for tt in (t, t2):
                        if implies(c, tt):
                            hi = sub(N, r.init) if d == 1 else sub(r.init, N)
                            if hi is None:
                                continue
                            # inside the domain the test part holds
                            val = add(r.init, scale(vt(sym), d))
                            ok = self.const_step(r, c, d)
                            if not ok:
                                continue
                            core.idx_hi[sym] = hi
                            r.at = lambda b, r=r, d=d: add(r.init, scale(b, d))
                            M[r.lc] = val
                            fix = {}
                            X2, B2 = assume(X, tt), assume(B, tt)
                            for q in todo:
                                if q is not r:
                                    q.upd = assume_c(q.upd, tt)
                            return hi, X2, B2
        raise Unsupported("while")

    def const_step(self, r, c, d):
        """under the test and when not leaving the loop, the counter advances by d on every path"""
        for g, p in pieces(r.upd):
            if implies(g, gnot(c)):
                continue
            if asnum(sub(p, vt(r.lc))) != d:
                return False
        return True


def assume(g, t):
    """simplify g under t (single-literal t)"""
    for a in gsupp(t):
        if a is None:
            continue
        if implies(t, gatom(a)):
            g = gcof(g, a, True)
        elif implies(t, gnot(gatom(a))):
            g = gcof(g, a, False)
    return g


def assume_v(v, t):
    if isplain(v):
        return v
    return vsum(guarded(assume(g, t), p) for g, p in pieces(v) if assume(g, t) is not FALSE)


def assume_c(c, t):
    if isinstance(c, V):
        return assume_v(c, t)
    if c[0] == "L":
        return ("L", norm_segs(tuple(assume_seg(s, t) for s in c[1])))
    if c[0] == "D":
        return ("D", c[1], tuple(("w", w[1], assume_v(w[2], t), w[3], assume(w[4], t)) if w[0] == "w" else w for w in c[2]))
    return c


def assume_seg(s, t):
    if s[0] == "e":
        return ("e", assume_v(s[1], t), assume(s[2], t))
    if s[0] == "x":
        return ("x", s[1], assume(s[2], t))
    return s


def gcof_v(v, a, b):
    out = ZERO
    for m, cs in v.items:
        for c, g in cs:
            out = add(out, core._mkv({m: {c: gcof(g, a, b)}}))
    return out


def seg_of(v):
    t = asT(v)
    return t.args if t is not None and t.op == "seq" else (("x", v, TRUE),)


def uniqv(segs, ctx=TRUE):
    segs = norm_segs(segs)
    if len(segs) == 1 and segs[0][0] == "x" and segs[0][2] is TRUE:
        t = asT(segs[0][1])
        if t is not None and distinct_hook[0](t):
            return segs[0][1]
        return vt(mk("uniq", segs[0][1]))
    if len(segs) > 1:
        # elements that the context keeps apart from a list without repetitions
        es = [x for x in segs if x[0] == "e"]
        xs = [x for x in segs if x[0] != "e"]
        if len(es) == 1 and len(xs) == 1 and len(segs) == 2 and es[0][2] is TRUE:
            x = xs[0]
            t = None
            if x[0] == "x" and x[2] is TRUE:
                t = asT(x[1])
            elif x[0] == "l":
                y = fresh("i")
                b, = open_(x[1], vt(y), x[3])
                if len(b) == 1 and b[0][0] == "e" and b[0][2] is TRUE:
                    t = asT(b[0][1])
                    t = t.args[0] if t is not None and t.op == "item" and t.args[1] is vt(y) else None
            if t is not None and distinct_hook[0](t) and gand(ctx, contains(vt(t), es[0][1])) is FALSE:
                return seqv(segs)
    return vt(mk("uniq", seqv(segs)))


def once_only(g, cell, v, lc):
    """if v not in d[k]: d[k].append(v)   -> the rest of the condition"""
    a = contains(cell, v)
    if a.var is None or a.hi is not TRUE or a.lo is not FALSE or lc in v.free:
        return None
    r = gcof(g, a.var, False)
    return r if gcof(g, a.var, True) is FALSE and lc not in r.free else None


class LoopCtx:
    """aggregation over one loop with early exits folded in"""

    def __init__(self, eng, sym, hi, X):
        self.eng, self.sym, self.hi, self.X = eng, sym, hi, X
        self.xrec = None

    def at(self, x, j):
        return x if j is self.sym else Subst({self.sym: vt(j)}).any(x)

    def ne(self, i):
        """no exit before index i"""
        if self.X is FALSE:
            return TRUE
        if self.xrec is not None:
            return gnot(self.xrec(i))
        j = fresh("i")
        core.idx_hi[j] = i
        return gnot(EX(j, i, self.at(self.X, j)))

    def some(self, b, g):
        return lt(ZERO, b) if g is TRUE else self.exn(b, g)

    def exn(self, b, g):
        if g is FALSE:
            return FALSE
        j = fresh("i")
        core.idx_hi[j] = b
        if self.X is FALSE or g is self.X:
            return EX(j, b, self.at(g, j))
        gj = gand(self.at(g, j), self.ne(vt(j)))
        # first exit decided by the exit condition itself
        return EX(j, b, gj)

    def seln(self, b, g, v):
        j = fresh("i")
        core.idx_hi[j] = b
        gg = self.at(g, j)
        if self.X is not FALSE and not implies(g, self.X):
            gg = gand(gg, self.ne(vt(j)))
        return SEL(j, b, gg, self.at(v, j))

    def last(self, b, g, v):
        if g is TRUE and self.X is FALSE:
            return Subst({self.sym: sub(b, ONE)}).any(v)
        return self.seln(b, g, v)

    def sumn(self, b, d):
        j = fresh("i")
        core.idx_hi[j] = b
        if self.X is FALSE:
            return SUM(j, b, self.at(d, j))
        r = ZERO
        for m, cs in d.items:
            for c, g in cs:
                p = core._mkv({m: {c: TRUE}})
                gx, gn = gand(g, self.X), gand(g, gnot(self.X))
                if gx is not FALSE:
                    r = add(r, guarded(self.exn(b, gx), self.seln(b, gx, p)))
                if gn is not FALSE:
                    r = add(r, SUM(j, b, guarded(gand(self.at(gn, j), self.ne(vt(j))), self.at(p, j))))
        return r

    def maxn(self, b, g, v, init, sense):
        j = fresh("i")
        core.idx_hi[j] = b
        gg = self.at(g, j)
        if self.X is not FALSE:
            gg = gand(gg, self.ne(vt(j)))
        return MAXF(j, b, gg, self.at(v, j), init) if sense > 0 else MINF(j, b, gg, self.at(v, j), init)

    def split(self, segs):
        return segs

    def segloop(self, b, segs):
        j = fresh("i")
        core.idx_hi[j] = b
        if self.X is FALSE:
            return seg_loop(j, b, self.at(tuple(segs), j))
        ex = tuple(s for s in segs if s[0] == "e" and implies(s[2], self.X))
        if len(ex) == len(segs):
            return tuple(("e", self.seln(b, s[2], s[1]), self.exn(b, s[2])) for s in ex)
        ne = self.ne(vt(j))
        return seg_loop(j, b, guard_segs(ne, self.at(tuple(segs), j)))

    def strloop(self, b, parts):
        j = fresh("i")
        core.idx_hi[j] = b
        p = self.at(tuple(parts), j)
        if self.X is not FALSE:
            p = tuple(guard_segs_str(self.ne(vt(j)), p))
        return seg_loop_str(j, b, p)

    def writeloop(self, b, ws):
        ws = tuple(ws)
        if not ws:
            return ()
        j = fresh("i")
        core.idx_hi[j] = b
        if self.X is not FALSE:
            if all(w[0] == "w" and implies(w[4], self.X) for w in ws):
                return tuple(("w", tuple(self.seln(b, w[4], k) for k in w[1]), self.seln(b, w[4], w[2]), w[3],
                              self.exn(b, w[4])) for w in ws)
            ws = tuple(guard_writes(self.ne(vt(self.sym)), list(ws)))
        body = self.at(ws, j)
        g = wguard(body)
        if j in g.free:
            j, b, g, body = norm.shrunk(j, b, g, body)
            body = self.eng.sub_writes(body, Subst({}))
        flat = one_point(j, b, body)
        if flat is not None:
            return flat
        h, (bb,) = bind(j, body)
        return (("l", h, b, bb),)


def one_point(j, b, ws):
    """writes made in one pass of the loop only (guard j == e)"""
    out = []
    for w in ws:
        if w[0] != "w":
            return None
        e = None
        for a in gsupp(w[4]):
            if a.op == "eq" and j in a.free and implies(w[4], gatom(a)):
                d = a.args[0]
                c = None
                if isplain(d):
                    for m, cs in d.items:
                        if m == ((j, F1),):
                            c = cs[0][0]
                if c:
                    r = scale(sub(d, scale(vt(j), c)), -1 / c)
                    if j not in r.free:
                        e = r
                        break
        if e is None:
            return None
        sb = Subst({j: e})
        g = gand(sb.any(w[4]), gand(gnot(lt(e, ZERO)), lt(e, b)))
        out.append(("w", sb.any(w[1]), sb.any(w[2]), w[3], g))
    return tuple(out)


def wguard(ws):
    g = FALSE
    for w in ws:
        g = gor(g, w[4] if w[0] == "w" else TRUE)
    return g


def _bh_rec(s, hi, inits, slot, ups):
    h, (b,) = bind(s, ups)
    return vt(mk("rec", h, hi, inits, slot, b))


BINDERS["rec"] = 3
binder_hook["rec"] = _bh_rec


def _bh_work(s, init, segs):
    h, (b,) = bind(s, segs)
    return vt(mk("work", h, init, b))


BINDERS["work"] = 1
binder_hook["work"] = _bh_work
