"""Side effects of functions.

For every function of the package: which objects that existed before the call
it may change, named by access paths from its parameters
('self.x': attribute x of the object, 'self.~.x': attribute x of something
reachable from it), and what its result is made of.

Values are pairs (own, inner) of sets of paths: changing the value changes
the objects `own`; what is read out of it belongs to `inner`.  A value created
in the function has an empty own set.  Calls are resolved by name over all
classes of the package; functions are evaluated until nothing changes.

The analysis is meant not to raise false alarms: what comes out of functions
outside of the package is new, selections of a table by mask, slice or list
are new tables.
"""
import ast

LISTMUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "popitem", "setdefault", "add", "discard",
           "difference_update", "intersection_update", "symmetric_difference_update", "fill", "itemset", "resize", "__setitem__", "__setattr__", "__delitem__"}
VIEW = {"items", "values", "keys", "get", "iterrows", "itertuples", "tolist", "to_list", "to_dict", "unique", "__getitem__", "apply"}
INDEXER = {"loc", "iloc", "at", "iat"}
WRAP = {"list", "tuple", "set", "sorted", "dict", "reversed", "enumerate", "zip", "iter", "filter", "frozenset", "max", "min", "next"}
TABLES = {"results", "specifications", "comps", "conns"}


class V(tuple):
    """(own, inner); elem: the elements of a new container, parts: the
    members of a new tuple"""
    elem = parts = None

    def __new__(cls, own=frozenset(), inner=frozenset(), elem=None, parts=None):
        v = tuple.__new__(cls, (frozenset(own), frozenset(inner)))
        v.elem, v.parts = elem, parts
        return v


FRESH = V()


def cut(p):
    """(root), (root, attribute) or (root, '~', attribute of something
    reachable)"""
    if len(p) <= 2:
        return p
    last = [x for x in p[1:] if x not in ("[]", "~")]
    if last[-1:] == ["val"] and len(last) > 1 and "." not in last[-2]:
        return p[0], "~", last[-2] + ".val"
    return p[0], "~", last[-1] if last else "[]"


def sub(v, step):
    """value read out of v"""
    if step == "[]" and v.elem is not None and not v[0]:
        return v.elem
    own, inner = v
    s = {cut(p + ("~", step)) if step == "[]" else cut(p + (step,)) for p in own} | inner
    return V(s, s)


def join(*vs):
    vs = [v for v in vs if v is not FRESH] or [FRESH]
    if len(vs) == 1:
        return vs[0]
    elem = parts = None
    if all(v.elem is not None for v in vs):
        elem = join(*[v.elem for v in vs])
    if all(v.parts is not None and len(v.parts) == len(vs[0].parts) for v in vs):
        parts = [join(*x) for x in zip(*[v.parts for v in vs])]
    return V(frozenset().union(*[v[0] for v in vs]), frozenset().union(*[v[1] for v in vs]), elem, parts)


def group(vs, parts=False):
    """new container of the values"""
    own = frozenset().union(*[v[0] for v in vs])
    return V((), own, None if parts or not vs else join(*vs), list(vs) if parts else None)


def shared(p):
    return V([p])


class Func:
    def __init__(self, module, cls, node):
        self.module, self.cls, self.node = module, cls, node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        deco = {ast.unparse(d) for d in node.decorator_list}
        self.static = "staticmethod" in deco
        self.classm = "classmethod" in deco
        self.prop = "property" in deco
        self.effects = {}       # path -> {site}
        self.ret = FRESH
        self.returns = []
        self.parts = None
        self.calls = set()
        self.callers = set()
        self.keeps = {}         # names of attributes given an argument itself -> {site}
        self.inplace = {}       # names of attributes whose content is modified -> {site}

    @property
    def qname(self):
        return (self.cls.name + "." if self.cls else "") + self.node.name

    @property
    def where(self):
        return "%s:%d (%s)" % (self.module.rel, self.node.lineno, self.qname)


class Effects:
    def __init__(self, P, modules=None):
        self.P = P
        self.funcs = []
        self.methods = {}
        self.functions = {}
        self.ctors = {}
        for m in P.modules.values():
            if modules and not modules(m):
                continue
            for name, d in m.defs.items():
                if d[0] == "func":
                    f = Func(m, None, d[1])
                    self.funcs.append(f)
                    self.functions.setdefault(name, []).append(f)
                elif d[0] == "class" and d[1].module is m:
                    for n, node in d[1].methods.items():
                        f = Func(m, d[1], node)
                        self.funcs.append(f)
                        self.methods.setdefault(n, []).append(f)
        work = list(self.funcs)
        n = 0
        while work and n < 40000:
            f = work.pop()
            n += 1
            before = {p: len(s) for p, s in f.effects.items()}, f.ret
            Body(self, f).run()
            if ({p: len(s) for p, s in f.effects.items()}, f.ret) != before:
                for g in f.callers:
                    if g not in work:
                        work.append(g)
        self.rounds = n
        self.complete = not work

    def of(self, cls, name):
        """effects of the method as seen by an object of this class"""
        r = cls.find(name)
        if r is None:
            return None
        return next(f for f in self.methods.get(name, []) if f.node is r[1])

    def targets(self, f, node, env):
        """functions a call may run: (function, receiver expression or None)"""
        fn = node.func
        if isinstance(fn, ast.Name):
            if fn.id in env:
                return []
            d = self.P.resolve(f.module.name, fn.id)
            return self._def(d, fn.id)
        if isinstance(fn, ast.Attribute):
            # super().method, Class.method, module.function
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls:
                r = f.cls.find(fn.attr, after=f.cls)
                return [g for g in self.methods.get(fn.attr, []) if r and g.node is r[1]]
            if isinstance(fn.value, ast.Name) and fn.value.id not in env and fn.value.id != "self":
                try:
                    d = self.P.resolve_expr(f.module, fn)
                except Exception:
                    d = None
                return self._def(d, fn.attr)
            ms = self.methods.get(fn.attr, [])
            if isinstance(fn.value, ast.Name) and fn.value.id == "self" and f.cls:
                r = f.cls.find(fn.attr)
                own = [g for g in ms if g.cls is not None and (r and g.node is r[1] or f.cls in g.cls.mro)]
                return own
            return ms
        return []

    def _def(self, d, name):
        node = None
        if d is None:
            return []
        if isinstance(d, tuple):
            for x in d:
                if isinstance(x, ast.FunctionDef):
                    node = x
                if hasattr(x, "methods") and "__init__" in x.methods:
                    return []
        elif isinstance(d, ast.FunctionDef):
            node = d
        return [g for g in self.functions.get(name, []) if node is None or g.node is node] if node is not None else []


class Body:
    def __init__(self, E, f):
        self.E, self.f = E, f
        self.env = {}
        for x in f.params + f.kwonly:
            self.env[x] = shared((x,))
        a = f.node.args
        if a.vararg:
            self.env[a.vararg.arg] = V((), [(a.vararg.arg,)])
        if a.kwarg:
            self.env[a.kwarg.arg] = V((), [(a.kwarg.arg,)])
        self.globals = set()

    def run(self):
        self.f.returns = []
        self.body()
        rs = self.f.returns
        self.f.parts = join(*rs).parts if rs and all(v.parts is not None for v in rs) else None

    def body(self):
        for _ in range(3):
            before = dict(self.env)
            self.block(self.f.node.body)
            if self.env == before:
                break

    def effect(self, v, step, node):
        if step == "[]":
            base = node.targets[0] if isinstance(node, (ast.Assign, ast.Delete)) else getattr(node, "target", None)
            base = base.value if isinstance(base, ast.Subscript) else node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
            if isinstance(base, ast.Attribute):
                self.f.inplace.setdefault(chain(base), set()).add((self.f.module.rel, node.lineno, self.f.qname))
            for p in v[0]:
                if len(p) > 1 and p[-1] != "[]":
                    self.f.inplace.setdefault(("?", p[-1]), set()).add((self.f.module.rel, getattr(node, "lineno", 0), self.f.qname))
        for p in v[0]:
            q = cut(p + ((step,) if step else ()))
            self.f.effects.setdefault(q, set()).add((self.f.module.rel, getattr(node, "lineno", self.f.node.lineno), self.f.qname))

    # statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.f.effects.setdefault(("global", t.id), set()).add((self.f.module.rel, node.lineno, self.f.qname))
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            known = v.parts if v.parts is not None and len(v.parts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts) else None
            for i, x in enumerate(t.elts):
                self.assign(x, known[i] if known else sub(v, "[]"), node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.effect(b, t.attr, node)
            if any(p[0] not in (self.f.params[:1] if self.f.cls else ()) and p[0] != "global" and (len(p) == 1 or p[-1] == "[]") for p in v[0]) and b[0]:
                self.f.keeps.setdefault(chain(t), set()).add((self.f.module.rel, node.lineno, self.f.qname))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            base = t.value
            if isinstance(base, ast.Attribute) and base.attr in INDEXER:
                b = self.ev(base.value)
            self.effect(b, "[]", node)

    def store(self, base, v):
        """what is stored in a new object can be read out of it again"""
        while isinstance(base, (ast.Attribute, ast.Subscript)):
            base = base.value
        if isinstance(base, ast.Name) and base.id in self.env:
            own, inner = self.env[base.id]
            if not own:
                old = self.env[base.id]
                self.env[base.id] = V(own, inner | v[0], join(old.elem, v) if old.elem is not None else v if not inner else None)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                # lists and sets grow in place
                b = self.env.get(s.target.id, FRESH)
                if isinstance(s.op, (ast.Add, ast.BitOr)) and isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)):
                    self.effect(b, "[]", s)
                elif any(len(q) == 2 and q[1] in ("x", "y", "z") for q in b[0]) and self.f.module.name.endswith(".characteristics"):
                    # arrays change in place
                    self.effect(b, "[]", s)
                self.env[s.target.id] = V(b[0], b[1] | v[0] | v[1])
            else:
                self.assign(s.target, v, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.assign(t, FRESH, s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.f.ret = join(self.f.ret, v)
                self.f.returns.append(v)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1, self.env = self.env, dict(e0)
            self.block(s.orelse)
            if ends(s.body):
                pass
            elif ends(s.orelse):
                self.env = e1
            else:
                self.env = merge(e1, self.env)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            it = self.ev(s.iter if not isinstance(s, ast.While) else s.test)
            e0 = dict(self.env)
            for _ in range(3):
                head = dict(self.env)
                if not isinstance(s, ast.While):
                    self.assign(s.target, sub(it, "[]"), s)
                self.block(s.body)
                self.env = merge(e0, self.env)
                if self.env == head:
                    break
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            self.block(s.orelse)
            e1 = self.env
            for h in s.handlers:
                self.env = merge(e0, e1)
                self.block(h.body)
                if not ends(h.body):
                    e1 = merge(e1, self.env)
            self.env = e1
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            self.globals.update(s.names)
        elif isinstance(s, ast.FunctionDef):
            # evaluated where it is defined, parameters new
            for x in s.args.args:
                self.env.setdefault(x.arg, FRESH)
            ret = self.f.ret
            self.block(s.body)
            self.f.ret = ret
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x)

    # expressions
    def ev(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.JoinedStr):
                for x in e.values:
                    if isinstance(x, ast.FormattedValue):
                        self.ev(x.value)
            return FRESH
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id in ("True", "False", "None"):
                return FRESH
            d = self.f.module.defs.get(e.id)
            if d and d[0] in ("assign", "import"):
                t = self.E.P.resolve(self.f.module.name, e.id)
                if isinstance(t, tuple) and t and t[0] == "assign":
                    return shared(("global", e.id))
            return FRESH
        if isinstance(e, ast.Attribute):
            if e.attr in INDEXER or e.attr in ("T",) and False:
                return self.ev(e.value)
            b = self.ev(e.value)
            v = sub(b, e.attr)
            for g in self.E.methods.get(e.attr, []):
                if g.prop and b[0]:
                    v = join(v, self.apply(g, e, b, [], {}, bound=True))
            return v
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            if selection(e):
                return FRESH
            return sub(b, "[]")
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return group([self.ev(x) for x in e.elts], isinstance(e, ast.Tuple))
        if isinstance(e, ast.Dict):
            for x in e.values + [k for k in e.keys if k is not None]:
                self.ev(x)
            return FRESH
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.assign(g.target, sub(it, "[]"), e)
                for c in g.ifs:
                    self.ev(c)
            vs = [self.ev(e.elt)] if not isinstance(e, ast.DictComp) else [self.ev(e.key), self.ev(e.value)]
            self.env = saved
            if isinstance(e, ast.DictComp):
                return FRESH
            return group(vs)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.BoolOp):
            return join(*[self.ev(x) for x in e.values])
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e)
            return v
        if isinstance(e, ast.Lambda):
            saved = dict(self.env)
            for x in e.args.args:
                self.env[x.arg] = FRESH
            self.ev(e.body)
            self.env = saved
            return FRESH
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            # a sum of lists holds their elements
            return group([sub(a, "[]"), sub(b, "[]")]) if isinstance(e.op, ast.Add) else FRESH
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return FRESH

    def call(self, e):
        fn = e.func
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        recv = None
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
        elif not isinstance(fn, ast.Name):
            self.ev(fn)
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        inplace = any(k.arg == "inplace" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in e.keywords)
        out = [k for k in e.keywords if k.arg == "out"]
        if inplace and recv is not None:
            self.effect(recv, "[]", e)
        for k in out:
            self.effect(kw["out"], "[]", e)
        if isinstance(fn, ast.Name) and fn.id not in self.env:
            if fn.id in ("setattr", "delattr") and args:
                a = e.args[1]
                self.effect(args[0], a.value if isinstance(a, ast.Constant) else "*", e)
                return FRESH
            if fn.id == "getattr" and args:
                a = e.args[1]
                return join(sub(args[0], a.value if isinstance(a, ast.Constant) else "*"), *args[2:])
            if fn.id in WRAP:
                els = [sub(a, "[]") for a in args]
                if fn.id in ("max", "min", "next"):
                    return join(FRESH, *els)
                if fn.id == "zip":
                    return group([group(els, True)])
                if fn.id == "enumerate":
                    return group([group([FRESH, join(FRESH, *els[:1])], True)])
                return group([join(FRESH, *els)])
            if fn.id == "super" and self.f.params:
                return shared((self.f.params[0],))
        ts = self.E.targets(self.f, e, self.env)
        res = []
        if name in LISTMUT and recv is not None and not (ts and name not in ("update", "add", "insert")):
            self.effect(recv, "[]", e)
            # what is put into a new container
            if isinstance(fn.value, ast.Name) and args:
                self.store(fn.value, join(*args))
            return sub(recv, "[]") if name in ("pop", "setdefault", "popitem") else FRESH
        for g in ts:
            bound = recv is not None and g.cls is not None and not g.static
            res.append(self.apply(g, e, recv, args, kw, bound, star))
        # functions handed over are called by the receiver
        for a in list(e.args) + [k.value for k in e.keywords]:
            if isinstance(a, ast.Attribute) and a.attr in self.E.methods and isinstance(a.value, ast.Name) and a.value.id == "self" and self.f.cls:
                r = self.f.cls.find(a.attr)
                for g in self.E.methods[a.attr]:
                    if r and g.node is r[1] or self.f.cls in g.cls.mro:
                        el = sub(recv, "[]") if recv else FRESH
                        self.apply(g, e, self.ev(a.value), [el] * (len(g.params) - 1), {}, True)
        if ts:
            return join(*res)
        if recv is not None:
            if name == "copy" and not args:
                # a copied table is new, a copied container shares its elements
                return V((), frozenset(cut(p + ("~", "[]")) for p in recv[0] if p[-1] not in TABLES) | recv[1], recv.elem if not recv[0] else None)
            if name in VIEW:
                x = sub(recv, "[]")
                if name in ("get", "__getitem__"):
                    return x
                if name in ("items", "iterrows"):
                    return group([group([FRESH, x], True)])
                return group([x])
        return FRESH

    def apply(self, g, node, recv, args, kw, bound, star=False):
        g.callers.add(self.f)
        env = {}
        ps = list(g.params)
        if g.cls is not None and not g.static:
            if bound:
                env[ps[0]] = recv
                ps = ps[1:]
        rest = []
        for i, a in enumerate(args):
            if star:
                rest.append(a)
            elif i < len(ps):
                env[ps[i]] = a
            else:
                rest.append(a)
        for k, v in kw.items():
            if k is None:
                rest.append(v)
            else:
                env[k] = v
        va = g.node.args
        if star:
            al = join(*args) if args else FRESH
            el = sub(al, "[]")
            for p in ps:
                env.setdefault(p, join(al, el))
        if va.vararg:
            env[va.vararg.arg] = join(*([FRESH] + [x for x in rest]))
        if va.kwarg:
            env[va.kwarg.arg] = join(*([FRESH] + [x for x in rest] + [v for k, v in kw.items() if k not in g.params + g.kwonly]))

        def subst(p):
            """paths of the caller for a path of the callee; own part, inner part"""
            if p[0] == "global":
                return {p}
            v = env.get(p[0])
            if v is None:
                return set()
            out = {cut(q + p[1:]) for q in v[0]}
            if len(p) > 2:
                # what is read out of a new object may be shared
                out |= {cut(q + p[2:]) for q in v[1]}
            return out
        for p, sites in list(g.effects.items()):
            for q in subst(p):
                self.f.effects.setdefault(q, set()).update(list(sites)[:3])

        def back(s):
            o = set()
            for p in s:
                v = env.get(p[0])
                if p[0] == "global":
                    o.add(p)
                elif v is not None:
                    if len(p) == 1:
                        o |= v[0]
                    else:
                        o |= {cut(q + p[1:]) for q in v[0]} | (set(v[1]) if len(p) == 2 else {cut(q + p[2:]) for q in v[1]})
            return o
        own, inner = g.ret
        ro, ri = back(own), back(inner)
        for p in own:
            v = env.get(p[0])
            if v is not None and len(p) == 1:
                ri |= v[1]
        parts = None
        if g.parts:
            parts = [V(back(v[0]), back(v[1])) for v in g.parts]
        return V(ro, ri, None, parts)


def chain(e):
    """the last two names of an attribute"""
    b = e.value
    return (b.attr if isinstance(b, ast.Attribute) else "self" if isinstance(b, ast.Name) else "?"), e.attr


def merge(a, b):
    return {k: join(a.get(k, FRESH), b.get(k, FRESH)) for k in set(a) | set(b)}


def ends(body):
    """control does not leave the block at its end"""
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def selection(e):
    """rows or columns of a table selected by mask, slice or list: a new
    table"""
    s = e.slice
    parts = s.elts if isinstance(s, ast.Tuple) else [s]
    loc = isinstance(e.value, ast.Attribute) and e.value.attr in INDEXER
    for x in parts:
        if isinstance(x, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(x, ast.Slice) and loc:
            return True
        if isinstance(x, (ast.UnaryOp, ast.BinOp)) and isinstance(getattr(x, "op", None), (ast.Invert, ast.BitAnd, ast.BitOr)):
            return True
    return False
