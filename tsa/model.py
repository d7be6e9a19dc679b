"""Abstract models of TESPy objects.

A component, its inlet/outlet connections and all parameter containers are
built by analysing the classes' own constructors (get_parameters, inlets,
outlets, propagate_to_target ...), then every quantity a user or the solver
may choose is replaced by a symbol.
"""
import re
from fractions import Fraction

from . import dd
from .dd import DD, lit, batom, apply, restrict
from .interp import (Interp, State, Frame, FuncV, BoundV, ClassV, Ref, OBJS,
                     new_obj, num, sym, MISSING, UNDEF, has_unk, Maybe, _hk,
                     _unhk)
from .poly import R, atom, ZERO, ONE, diff, map_atoms, Blowup
from . import poly
from . import chem

FLUIDS = ("H2O", "N2")


def flag(path):
    return lit(batom("flag", path))


REACTION = ("CombustionChamber", "FuelCell", "WaterElectrolyzer")


def default_fluids(cls):
    names = {c.name for c in cls.mro if not isinstance(c, str)}
    if "CombustionChamber" in names:
        return ("O2", "CO2", "H2O", "N2", "CH4", "H2")
    if names & {"FuelCell", "WaterElectrolyzer"}:
        return ("O2", "H2O", "H2")
    return FLUIDS


def columns(a, b):
    """columns of different variables differ (C06); a variable shared between
    connections is one container and therefore one symbol in the model"""
    return a != b and ".J_col" in a and ".J_col" in b


class Model:
    """One abstract component context."""

    def __init__(self, program, cls, n=2, fluids=None, alias=True,
                 extra_alias=(), setup=None, char_type=None,
                 fix=None, preset=None):
        self.P = program
        self.I = Interp(program)
        self.cls = cls
        self.fluids = list(fluids or default_fluids(cls))
        self.n = n
        self.notes = []
        self.fix = fix or {}
        self.preset = preset or {}
        self.I.intrinsics["tespy.tools.helpers._numeric_deriv"] = self.i_numeric
        chem.install(self.I)
        self.I.intrinsics["ext:scipy.optimize.brentq"] = i_root
        self.I.intrinsics["tespy.components.component.Component.preprocess"] = lambda *a: None
        # the composition symbol of a connection already denotes what
        # build_fluid_data assembles (checked on its own in C13)
        self.I.intrinsics["tespy.connections.connection.Connection.build_fluid_data"] = lambda *a: None
        self.I.distinct = columns
        self.vars = {}       # value atom -> (container ref, is_var flag, J_col R, name)
        self.cols = {}       # J_col R -> value atom
        self.fluid_vars = {}
        self.st = State({}, {}, True)
        self.fr = Frame(program.modules[cls.module.name], None, "<top>", None)
        self.fr.node = None
        self.conn_cls = program.classes["Connection"]
        self.build(alias, extra_alias)

    # ----------------------------------------------------------------
    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw, self.st, self.fr)

    def meth(self, obj, name):
        return self.I.getattr_(obj, name, self.st, self.fr)

    def attr(self, obj, *names):
        for n in names:
            obj = self.I.getattr_(obj, n, self.st, self.fr)
        return obj

    def setv(self, ref, name, v):
        self.st.heap[(ref.oid, "a", name)] = v

    def items(self, ref):
        return self.I.iterate(ref, self.st)

    # ----------------------------------------------------------------
    def build(self, alias, extra_alias):
        I, st = self.I, self.st
        self.self = new_obj("object", self.cls, path="self", lazy=self.lazy_self)
        init = self.cls.find("__init__")
        label = "comp"
        I.call_func(FuncV(init[1], init[0].module, init[0], None),
                    [self.self, label], {}, st, self.fr, self.self)
        self.setv(self.self, "label", "comp")
        self.params = self.attr(self.self, "parameters")
        for c, k, v in I.dict_items(st, self.params):
            if isinstance(v, Ref) and k in ("num_in", "num_out", "num_inter"):
                self.setv(v, "val", num(self.n))
                self.setv(v, "is_set", True)
        self.param_names = []
        for c, k, v in I.dict_items(st, self.params):
            if isinstance(v, Ref):
                self.param_names.append(k)
                self.symbolise_param(k, v)
        inlets = self.items(self.call(self.meth(self.self, "inlets"))) or []
        outlets = self.items(self.call(self.meth(self.self, "outlets"))) or []
        self.in_ids, self.out_ids = inlets, outlets
        self.inl = [self.connection("in%d" % (i + 1), target=self.self, target_id=x)
                    for i, x in enumerate(inlets)]
        self.outl = [self.connection("out%d" % (i + 1), source=self.self, source_id=x)
                     for i, x in enumerate(outlets)]
        self.setv(self.self, "inl", I.new_list(st, self.inl))
        self.setv(self.self, "outl", I.new_list(st, self.outl))
        self.setv(self.self, "num_i", num(len(inlets)))
        self.setv(self.self, "num_o", num(len(outlets)))
        self.setv(self.self, "it", sym("self.it"))
        self.setv(self.self, "vars", I.new_dict(st, [
            (self.param(k), k) for k in self.param_names]))
        # characteristics evaluated at another expression than the default
        for k, (par, kind) in self.preset.items():
            d = self.param(k)
            self.setv(d, "param", par)
            cp = self.attr(d, "char_params")
            new = [(kk, kind if kk == "type" else v) for _, kk, v in I.dict_items(st, cp)]
            self.setv(d, "char_params", I.new_dict(st, new))
        self.special()
        self.jac = I.new_dict(st, [])
        self.setv(self.self, "jacobian", self.jac)
        res = new_obj("array0")
        st.heap[(res.oid, "#keys")] = ()
        self.residual = res
        self.setv(self.self, "residual", res)
        if alias:
            self.alias_branches()
        for a, b, what in extra_alias:
            self.share(self.conn(a), self.conn(b), what)
        self.register_vars()

    def flag(self, path):
        """A yes/no the user or the solver decides; a configuration may pin it."""
        if path in self.fix:
            return self.fix[path]
        for k, v in self.fix.items():
            if k.startswith("re:") and re.fullmatch(k[3:], path):
                return v
        return flag(path)

    def lazy_self(self, o, name):
        return UNDEF

    def conn(self, name):
        i = int(name.lstrip("inout")) - 1
        return (self.inl if name.startswith("in") else self.outl)[i]

    def symbolise_param(self, k, ref):
        p = "self." + k
        OBJS[ref.oid].path = p
        cname = OBJS[ref.oid].cls.name
        h = self.st.heap
        has = lambda a: (ref.oid, "a", a) in h
        if k in ("num_in", "num_out", "num_inter"):
            return
        for a in ("val", "val_SI", "design"):
            if has(a):
                h[(ref.oid, "a", a)] = sym(p + "." + a)
        for a in ("is_set", "is_var"):
            if has(a):
                h[(ref.oid, "a", a)] = self.flag(p + "." + a)
        if cname == "ComponentProperties":
            h[(ref.oid, "a", "J_col")] = sym(p + ".J_col")
        if has("char_func"):
            h[(ref.oid, "a", "char_func")] = sym(p + ".char_func")

    def connection(self, path, source=None, source_id=None, target=None, target_id=None):
        I, st = self.I, self.st
        c = new_obj("object", self.conn_cls, path=path, lazy=self.lazy_conn)
        self.setv(c, "label", path)
        self.setv(c, "source", source if source is not None else sym(path + ".source"))
        self.setv(c, "target", target if target is not None else sym(path + ".target"))
        self.setv(c, "source_id", source_id if source_id is not None else sym(path + ".source_id"))
        self.setv(c, "target_id", target_id if target_id is not None else sym(path + ".target_id"))
        pd = self.call(self.meth(c, "get_parameters"))
        self.setv(c, "property_data", pd)
        for cond, k, v in I.dict_items(st, pd):
            if not isinstance(v, Ref):
                continue
            self.setv(c, k, v)
            self.symbolise_prop(path + "." + k, v)
        fl = self.attr(c, "fluid")
        self.fluid_container(path + ".fluid", fl)
        self.setv(c, "mixing_rule", sym(path + ".mixing_rule"))
        simple = self.P.classes["SimpleDataContainer"]
        for k in ("state", "phase"):
            d = I.new_container(simple, {}, st, self.fr)
            self.symbolise_prop(path + "." + k, d)
            self.setv(c, k, d)
        self.fluid_data(c, path)
        jac = I.new_dict(st, [])
        self.setv(c, "jacobian", jac)
        res = new_obj("array0")
        st.heap[(res.oid, "#keys")] = ()
        self.setv(c, "residual", res)
        self.setv(c, "_increment_filter", sym("all_false"))
        return c

    def lazy_conn(self, o, name):
        # quantities computed by the exergy analysis etc.
        if name.startswith(("Ex_", "ex_")):
            return sym(o.path + "." + name)
        return UNDEF

    def fluid_data(self, c, path):
        fl = self.attr(c, "fluid")
        fp = OBJS[fl.oid].path
        model = self

        def lazy(o, key):
            f = _unhk(key)
            if f not in model.fluids:
                return MISSING
            k2 = (o.oid, f)
            if k2 not in model._fd:
                def lz(o2, key2, f=f):
                    kk = _unhk(key2)
                    if kk == "wrapper":
                        return model.wrapper(fp, f)
                    if kk == "mass_fraction":
                        return model.xsym(fp, f)
                    return MISSING
                model._fd[k2] = new_obj("symdict", path="%s.data[%s]" % (fp, f), lazy=lz,
                                        universe=[_hk("wrapper"), _hk("mass_fraction")])
            return model._fd[k2]
        if not hasattr(self, "_fd"):
            self._fd = {}
        fd = new_obj("symdict", path=fp + ".data", lazy=lazy,
                     universe=[_hk(f) for f in self.fluids])
        OBJS[fd.oid].extra = ("fluid_data", fp)
        self.setv(c, "fluid_data", fd)

    def wrapper(self, fp, f):
        return sym("wrapper[%s]" % f)

    def xsym(self, fp, f):
        return sym("%s.x[%s]" % (fp, f))

    def symbolise_prop(self, path, ref):
        OBJS[ref.oid].path = path
        h = self.st.heap
        has = lambda a: (ref.oid, "a", a) in h
        for a in ("val", "val_SI", "val0", "design", "J_col", "unit", "ref"):
            if has(a) and OBJS[ref.oid].cls.name != "FluidComposition":
                h[(ref.oid, "a", a)] = sym(path + "." + a)
        for a in ("is_set", "is_var", "_solved"):
            if has(a) and OBJS[ref.oid].cls.name != "FluidComposition":
                h[(ref.oid, "a", a)] = self.flag(path + "." + a)

    def fluid_container(self, path, ref):
        OBJS[ref.oid].path = path
        h = self.st.heap
        uni = [_hk(f) for f in self.fluids]
        m = self

        def sd(name, fn):
            o = new_obj("symdict", path=path + "." + name, lazy=fn, universe=uni)
            h[(ref.oid, "a", name)] = o

        def ss(name):
            o = new_obj("symset", path=path + "." + name, universe=uni,
                        lazy=lambda o, k: self.flag("%s.%s[%s]" % (path, name, _unhk(k)))
                        if _unhk(k) in m.fluids else False)
            h[(ref.oid, "a", name)] = o
        g = lambda fn: (lambda o, k: fn(_unhk(k)) if _unhk(k) in m.fluids else MISSING)
        sd("val", g(lambda f: self.xsym(path, f)))
        sd("val0", g(lambda f: sym("%s.x0[%s]" % (path, f))))
        sd("J_col", g(lambda f: sym("%s.J_col[%s]" % (path, f))))
        sd("wrapper", g(lambda f: self.wrapper(path, f)))
        sd("design", g(lambda f: sym("%s.design[%s]" % (path, f))))
        ss("is_set")
        ss("is_var")

    # ----------------------------------------------------------------
    def alias_branches(self):
        """Ask the class which outlet continues the branch of each inlet; the
        presolver makes those connections share one m and one fluid container."""
        I = self.I
        self.links = []
        for idx, c in enumerate(self.inl):
            if self.cls.find("propagate_to_target") is None:
                continue
            st0 = self.st.copy()
            save = self.st
            self.st = st0
            try:
                conns = I.new_list(st0, [c])
                comps = I.new_list(st0, [self.self])
                sub = I.new_dict(st0, [])
                br = I.new_dict(st0, [("connections", conns), ("components", comps), ("subbranches", sub)])
                self.call(self.meth(self.self, "propagate_to_target"), br)
                lst = I.iterate(conns, st0)
                subs = I.dict_items(st0, sub)
                got = []
                for x in (lst or [])[1:]:
                    if isinstance(x, Ref):
                        got.append((x, True))
                    elif isinstance(x, Maybe) and isinstance(x.k[1], Ref):
                        got.append((x.k[1], False))
                for cond, k, v in subs:
                    if not isinstance(v, Ref):
                        continue
                    l2 = st0.heap.get((v.oid, "k", _hk("connections")))
                    for x in (I.iterate(l2, st0) or []):
                        if isinstance(x, Ref):
                            got.append((x, False))
            finally:
                self.st = save
            for x, is_m in got:
                if x in self.outl:
                    self.links.append((idx, self.outl.index(x), is_m))
                    self.share(c, x, "m" if is_m else "fluid")
        return

    def share(self, a, b, what):
        if what == "m":
            self.setv(b, "m", self.attr(a, "m"))
        self.setv(b, "fluid", self.attr(a, "fluid"))
        self.setv(b, "fluid_data", self.attr(a, "fluid_data"))

    def register_vars(self):
        self.vars = {}
        self.cols = {}
        def add(name, valatom, isvar, col, owner):
            if valatom in self.vars:
                return
            self.vars[valatom] = (name, isvar, col, owner)
            self.cols[col] = valatom
        for c in self.inl + self.outl + getattr(self, "extra_conns", []):
            for k in ("m", "p", "h"):
                d = self.attr(c, k)
                v = self.attr(d, "val_SI").as_atom()
                add(OBJS[d.oid].path, v, self.attr(d, "is_var"), self.attr(d, "J_col"), c)
            fl = self.attr(c, "fluid")
            fp = OBJS[fl.oid].path
            for f in self.fluids:
                add("%s[%s]" % (fp, f), self.xsym(fp, f).as_atom(),
                    self.flag("%s.is_var[%s]" % (fp, f)), sym("%s.J_col[%s]" % (fp, f)), c)
        for k in self.param_names:
            d = self.param(k)
            if OBJS[d.oid].cls.name == "ComponentProperties":
                v = self.attr(d, "val")
                if isinstance(v, R) and v.as_atom() is not None:
                    add("self." + k, v.as_atom(), self.attr(d, "is_var"), self.attr(d, "J_col"), None)

    def param(self, k):
        return self.I.dict_get(self.st, self.params, k)

    def special(self):
        """Attributes the class' own preprocess step adds to the component
        (reaction parameters and the like); parameter containers keep their
        symbolic content."""
        f = self.cls.find("preprocess")
        if f is None:
            return
        old = set(self.st.heap)
        oids = {k[0] for k in old}
        self.st.heap.setdefault((self.self.oid, "a", "jacobian"), self.I.new_dict(self.st, []))
        v, st, exc = self.run(self.meth(self.self, "preprocess"), [num(0)], {})
        for k, v in st.heap.items():
            if k[0] not in oids or (k[0] == self.self.oid and k not in old and k[2] not in ("jacobian", "residual")):
                if k not in self.st.heap:
                    self.st.heap[k] = v
        self.preprocess_exc = exc

    # ---------------------------------------------------------- equations
    def equations(self):
        """[(name, func, deriv, kwargs, num_eq, constant_deriv)] as declared by
        get_mandatory_constraints and get_parameters."""
        I = self.I
        out = []
        cons = self.call(self.meth(self.self, "get_mandatory_constraints"))
        self.constraints = cons
        for c, k, v in I.dict_items(self.st, cons):
            g = lambda key: I.dict_get(self.st, v, key)
            out.append((k, g("func"), g("deriv"), {}, g("num_eq"), g("constant_deriv"), "constraint"))
        for k in self.param_names:
            d = self.param(k)
            f = self.attr(d, "func")
            if f is None or not isinstance(f, BoundV):
                continue
            kw = {}
            fp = self.attr(d, "func_params")
            for c, kk, vv in I.dict_items(self.st, fp):
                kw[kk] = vv
            out.append((k, f, self.attr(d, "deriv"), kw, self.attr(d, "num_eq"), False, "parameter"))
        return out

    def run(self, f, args, kw):
        """-> (value, State after, [(pc, exc)]) on a copy of the base state"""
        save, fr = self.st, self.fr
        self.st = save.copy()
        self.fr = Frame(fr.module, None, "<top>", None)
        self.fr.node = None
        try:
            v = self.I.call(f, list(args), dict(kw), self.st, self.fr)
            return v, self.st, [(pc, n) for pc, n, _ in self.fr.raises]
        finally:
            self.st, self.fr = save, fr

    # ---------------------------------------------------------- derivative
    def D(self, v, target):
        """derivative of a gated value w.r.t. a value atom."""
        return apply(lambda x: self.D1(x, target), v)

    def D1(self, r, target):
        if isinstance(r, bool) or r is None:
            return ZERO
        if not isinstance(r, R):
            return self.I.unk("derivative of %r" % (r,))
        if not hasattr(self, "_dc"):
            self._dc = {}
        return diff(r, lambda a: self.datom(a, target))

    def datom(self, a, target):
        if a is target:
            return ONE
        key = (a.id, target.id)
        v = self._dc.get(key)
        if v is None:
            v = self._datom(a, target)
            self._dc[key] = v
        return v

    def darg(self, x, target):
        """derivative of an atom argument -> R or None when not a number.
        fluid data objects: derivative marker per fluid."""
        if isinstance(x, R):
            return self.D1(x, target)
        if isinstance(x, Ref):
            o = OBJS[x.oid]
            if o.extra and o.extra[0] == "fluid_data":
                fp = o.extra[1]
                for f in self.fluids:
                    if self.xsym(fp, f).as_atom() is target:
                        return ("fluid", f)
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], str):
                return self.darg(x[1], target)
        return ZERO

    def _datom(self, a, target):
        if a.kind in ("sym", "unk", "fmt"):
            if a.kind == "sym" and a.args[0] == "nan":
                return ZERO
            return ZERO
        if a.kind == "fn":
            name, args = a.args[0], a.args[1:]
            if name == "log":
                return self.D1(args[0], target) / args[0]
            if name == "log10":
                return self.D1(args[0], target) / args[0] / R.of(atom("fn", "log", R.const(10)))
            if name == "exp":
                return self.D1(args[0], target) * R.of(a)
            if name == "abs":
                d = self.D1(args[0], target)
                return d * R.of(atom("fn", "sign", args[0])) if not d.is_zero() else ZERO
            if name == "pow":
                x, y = args
                dx, dy = self.D1(x, target), self.D1(y, target)
                s = ZERO
                if not dx.is_zero():
                    s = s + R.of(a) * y * dx / x
                if not dy.is_zero():
                    s = s + R.of(a) * R.of(atom("fn", "log", x)) * dy
                return s
            return self._generic(a, "dfn", (name,), args, target)
        if a.kind == "call":
            return self._generic(a, "dcall", (a.args[0],), a.args[1:], target)
        if a.kind in ("dfn", "dcall"):
            return self._generic(a, "d" + a.kind, a.args[:2], a.args[2:], target)
        if a.kind in ("item", "attr"):
            base = a.args[0]
            d = self.darg(base, target)
            if isinstance(d, R) and d.is_zero():
                return ZERO
            return R.of(atom("ditem", a, target))
        # any other kind: derivative zero iff it does not mention the target
        if self.mentions(a, target):
            return R.of(atom("unk", "derivative of %s" % a.kind, a.id))
        return ZERO

    def mentions(self, a, target, seen=None):
        if a is target:
            return True
        def arg(x):
            if isinstance(x, R):
                return any(self.mentions(b, target) for b in x.atoms())
            if isinstance(x, tuple):
                return any(arg(y) for y in x)
            return False
        return any(arg(x) for x in a.args)

    def _generic(self, a, kind, head, args, target):
        s = ZERO
        for i, x in enumerate(args):
            d = self.darg(x, target)
            if isinstance(d, tuple):
                s = s + R.of(atom(kind, *head, "%d:%s" % (i, d[1]), *args))
            elif not d.is_zero():
                s = s + d * R.of(atom(kind, *head, i, *args))
        return s

    # numeric derivative ------------------------------------------------
    def i_numeric(self, I, args, kwargs, st, fr, fv):
        names = [p.arg for p in fv.k[0].args.args]
        b = dict(zip(names, args))
        kw = {}
        for k, v in kwargs.items():
            if k in names:
                b[k] = v
            else:
                kw[k] = v
        obj, func, dx, conn = b.get("obj"), b.get("func"), b.get("dx"), b.get("conn")
        dx = restrict(dx, st.assume)
        conn = restrict(conn, st.assume)
        val = I.call(func, [], kw, st, fr)
        def one(dx, conn):
            if not isinstance(dx, str):
                return I.unk("numeric derivative of unknown variable")
            if conn is None:
                if isinstance(obj, Ref):
                    d = I.obj_getattr(obj, dx, st, fr)
                    v = I.getattr_(d, "val", st, fr)
                    if isinstance(v, R) and v.as_atom() is not None:
                        return self.D(val, v.as_atom())
                return I.unk("numeric derivative param")
            if isinstance(conn, Ref):
                if dx in ("m", "p", "h"):
                    v = I.getattr_(I.getattr_(conn, dx, st, fr), "val_SI", st, fr)
                    if isinstance(v, R) and v.as_atom() is not None:
                        return self.D(val, v.as_atom())
                elif dx in self.fluids:
                    fl = I.getattr_(conn, "fluid", st, fr)
                    if isinstance(fl, Ref):
                        return self.D(val, self.xsym(OBJS[fl.oid].path, dx).as_atom())
            return I.unk("numeric derivative %s" % dx)
        return apply(one, dx, conn)


def i_root(I, args, kwargs, st, fr):
    """A bracketing root finder: the value depends on the function it is given
    (evaluated at a bound symbol) and the bracket, nothing else."""
    if len(args) < 3:
        return NotImplemented
    body = I.call(args[0], [sym("#bound")], {}, st, fr)
    if not all(isinstance(x, R) for x in [body, args[1], args[2]]):
        return NotImplemented
    return R.of(atom("fn", "root", body, args[1], args[2]))


def undecided(v):
    """Does a gated value contain anything the engine could not model?"""
    for _, l in dd.leaves(v):
        if isinstance(l, R):
            for a in l.atoms():
                if deep_unk(a):
                    return True
        elif l is MISSING or isinstance(l, (bool,)) or l is None:
            continue
        elif isinstance(l, tuple):
            if any(undecided(x) for x in l):
                return True
    return False


_du = {}


def deep_unk(a):
    r = _du.get(a.id)
    if r is None:
        r = a.kind in ("unk", "comp")
        if not r:
            def arg(x):
                if isinstance(x, R):
                    return any(deep_unk(b) for b in x.atoms())
                if isinstance(x, tuple):
                    return any(arg(y) for y in x)
                if isinstance(x, DD):
                    return undecided(x)
                return False
            r = any(arg(x) for x in a.args)
        _du[a.id] = r
    return r
