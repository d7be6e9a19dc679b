"""Whole-program model: modules, imports, classes, MRO, functions."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.defs = {}      # name -> ("func", node) | ("class", ClassInfo) | ("import", mod, attr|None) | ("assign", expr)
        self.rel = os.path.relpath(path, REPO)

    def __repr__(self):
        return "<module %s>" % self.name


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []     # ClassInfo or str
        self.methods = {}   # own: name -> FunctionDef
        self.assigns = {}   # own class attributes
        self.mro = None

    @property
    def qname(self):
        return self.module.name + "." + self.name

    def find(self, name, after=None):
        """Return (owner ClassInfo, FunctionDef) resolved along the MRO."""
        skip = after is not None
        for c in self.mro:
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, ClassInfo) and name in c.methods:
                return c, c.methods[name]
        return None

    def find_assign(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.assigns:
                    return c, c.assigns[name]
                if name in c.methods:
                    return None
        return None

    def subclass_of(self, other):
        if isinstance(other, ClassInfo):
            return other in self.mro
        return any((c if isinstance(c, str) else c.name) == other for c in self.mro)

    def __repr__(self):
        return "<class %s>" % self.qname


def decorator_names(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(ast.unparse(d))
    return out


class Program:
    def __init__(self, repo=None, package="tespy", src=None, stubs=()):
        self.repo = repo or REPO
        self.src = src or os.path.join(self.repo, "src")
        self.modules = {}
        self.sources = {}
        root = os.path.join(self.src, package)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = False
                if name.endswith(".__init__"):
                    name = name[:-9]
                    is_pkg = True
                with open(p, encoding="utf-8") as fh:
                    text = fh.read()
                self.sources[p] = text
                self.modules[name] = Module(name, p, ast.parse(text, p), is_pkg)
        self.stubs = set(stubs)
        for name in stubs:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", name + ".py")
            with open(p, encoding="utf-8") as fh:
                self.modules[name] = Module(name, p, ast.parse(fh.read(), p), False)
        for m in self.modules.values():
            self._collect(m)
        self.classes = {}
        for m in self.modules.values():
            if m.name in self.stubs:
                continue
            for k, v in m.defs.items():
                if v[0] == "class":
                    self.classes.setdefault(k, v[1])
        for m in list(self.modules.values()):
            for k, v in m.defs.items():
                if v[0] == "class":
                    self._bases(v[1])
        for m in list(self.modules.values()):
            for k, v in m.defs.items():
                if v[0] == "class":
                    self._mro(v[1])

    # ---------------------------------------------------------------
    def _collect(self, m):
        def visit(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[s.name] = ("func", s)
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(s.name, m, s)
                    for t in s.body:
                        if isinstance(t, ast.FunctionDef):
                            # property setters do not hide the getter
                            if t.name in c.methods and any(
                                    x.endswith(".setter") for x in decorator_names(t)):
                                c.methods[t.name + "__setter"] = t
                            else:
                                c.methods[t.name] = t
                        elif isinstance(t, ast.Assign):
                            for tg in t.targets:
                                if isinstance(tg, ast.Name):
                                    c.assigns[tg.id] = t.value
                        elif isinstance(t, ast.AnnAssign) and t.value is not None and isinstance(t.target, ast.Name):
                            c.assigns[t.target.id] = t.value
                    m.defs[s.name] = ("class", c)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            m.defs[al.asname] = ("import", al.name, None)
                        else:
                            m.defs[al.name.split(".")[0]] = ("import", al.name.split(".")[0], None)
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        base = ".".join(parts + ([base] if base else []))
                    for al in s.names:
                        m.defs[al.asname or al.name] = ("import", base, al.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.defs[t.id] = ("assign", s.value)
                        elif isinstance(t, ast.Tuple):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    m.defs[e.id] = ("opaque", e.id)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.defs[s.target.id] = ("assign", s.value)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                elif isinstance(s, (ast.If, ast.With)):
                    visit(s.body)
        visit(m.tree.body)

    def resolve(self, modname, name, depth=0):
        """Resolve a global name of a module to its definition.

        Returns ("func", Module, node) | ("class", ClassInfo) |
        ("module", name) | ("assign", Module, expr) | ("ext", dotted)."""
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        d = m.defs.get(name)
        if d is None:
            if modname + "." + name in self.modules:
                return ("module", modname + "." + name)
            return None
        if d[0] == "func":
            return ("func", m, d[1])
        if d[0] == "class":
            return ("class", d[1])
        if d[0] == "assign":
            return ("assign", m, d[1], name)
        if d[0] == "opaque":
            return ("ext", m.name + "." + name)
        _, mod, attr = d
        if attr is None:
            return ("module", mod) if mod in self.modules else ("ext", mod)
        if depth > 20 or (mod == modname and attr == name):
            if mod + "." + attr in self.modules:
                return ("module", mod + "." + attr)
            return ("ext", mod + "." + attr)
        if mod in self.modules:
            r = self.resolve(mod, attr, depth + 1)
            if r is not None:
                return r
            return ("ext", mod + "." + attr)
        return ("ext", mod + "." + attr)

    def resolve_expr(self, m, e):
        """Resolve a Name/Attribute expression statically at module scope."""
        if isinstance(e, ast.Name):
            return self.resolve(m.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            if b[0] == "module":
                return self.resolve(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                f = b[1].find(e.attr)
                if f:
                    return ("func", f[0].module, f[1])
        return None

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r and r[0] == "class":
                c.bases.append(r[1])
            elif r and r[0] == "ext":
                c.bases.append(r[1])
            else:
                c.bases.append(ast.unparse(b))

    def _mro(self, c):
        if c.mro is not None:
            return c.mro
        seqs = []
        for b in c.bases:
            seqs.append(list(self._mro(b)) if isinstance(b, ClassInfo) else [b])
        seqs.append(list(c.bases))
        res = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
        c.mro = res
        return res

    def cls(self, name):
        return self.classes[name]

    def subclasses(self, name):
        base = self.classes[name]
        return [c for c in self.classes.values() if base in c.mro]

    def func(self, qname):
        mod, f = qname.rsplit(".", 1)
        r = self.resolve(mod, f)
        return r
