"""Source model of the analysed package (and of the specification modules)."""
import ast
import os


class Cls:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = []
        self.methods = {}
        self.consts = {}
        self.isenum = False
        for b in node.bases:
            n = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
            if n:
                self.bases.append(n)
            if n in ("Enum", "IntEnum"):
                self.isenum = True
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                self.methods[s.name] = Fn(s, self, mod)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value


class Fn:
    def __init__(self, node, cls, mod):
        self.node, self.cls, self.mod = node, cls, mod
        self.name = node.name
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", None) for d in node.decorator_list]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs or "cached_property" in decs
        self.setter = any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in node.decorator_list)

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<Fn %s>" % self.qual


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src)
        self.src = src
        self.names = {}      # simple name -> ("cls",Cls)|("fn",Fn)|("mod",str)|("ext",dotted)|("var",expr)
        self.stars = []


class Package:
    """all modules below root; names are resolved per module through the import graph"""

    def __init__(self, root, pkgname, extra=()):
        self.root, self.pkgname = root, pkgname
        self.mods = {}
        self.classes = {}
        self.nfun = 0
        base = os.path.join(root, pkgname)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.load(rel, p)
        for m in list(self.mods.values()):
            self.index(m)

    def load(self, name, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = Mod(name, path, src)
        m.ispkg = path.endswith("__init__.py")
        self.mods[name] = m
        return m

    def add(self, name, path):
        m = self.load(name, path)
        self.index(m)
        return m

    def index(self, m):
        def stmts(body):
            for s in body:
                if isinstance(s, (ast.If, ast.Try)):
                    yield from stmts(s.body)
                    for h in getattr(s, "handlers", []):
                        yield from stmts(h.body)
                    yield from stmts(s.orelse)
                else:
                    yield s

        for s in stmts(m.tree.body):
            if isinstance(s, ast.ClassDef):
                c = Cls(s.name, s, m)
                m.names[s.name] = ("cls", c)
                self.classes.setdefault(s.name, c)
                self.nfun += len(c.methods)
            elif isinstance(s, ast.FunctionDef):
                m.names[s.name] = ("fn", Fn(s, None, m))
                self.nfun += 1
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                src = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.ispkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    src = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.names[a.asname or a.name] = ("imp", src, a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                m.names[s.targets[0].id] = ("var", s.value, m)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.names[s.target.id] = ("var", s.value, m)

    def resolve(self, m, name, depth=0):
        if depth > 10:
            return None
        x = m.names.get(name)
        if x is not None:
            if x[0] == "imp":
                src = self.mods.get(x[1])
                if src is not None:
                    r = self.resolve(src, x[2], depth + 1)
                    if r is not None:
                        return r
                    sub = self.mods.get(x[1] + "." + x[2])
                    if sub is not None:
                        return ("mod", sub.name)
                    return None
                if x[1] + "." + x[2] in self.mods:
                    return ("mod", x[1] + "." + x[2])
                return ("ext", x[1] + "." + x[2])
            return x
        for s in m.stars:
            src = self.mods.get(s)
            if src is not None and src is not m:
                r = self.resolve(src, name, depth + 1)
                if r is not None:
                    return r
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            r = self.resolve(c.mod, b)
            if r and r[0] == "cls":
                for x in self.mro(r[1]):
                    if x not in out:
                        out.append(x)
        return out

    def method(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
        return None

    def isexc(self, c):
        for x in self.mro(c):
            if any(b in ("Exception", "BaseException", "ValueError", "RuntimeError") for b in x.bases):
                return True
        return False

    def subclass(self, c, name):
        return any(x.name == name for x in self.mro(c)) or any(name in x.bases for x in self.mro(c))

    def subclasses(self, name):
        return [c for c in self.classes.values() if any(x.name == name for x in self.mro(c))]

    def instantiated(self):
        if not hasattr(self, "_inst"):
            self._inst = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        f = n.func
                        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                        if nm in self.classes:
                            self._inst.add(nm)
                    elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                        pass
        return self._inst

    def module_of(self, dotted):
        return self.mods.get(dotted)
