"""Export and load: a loaded network carries the specifications of the
exported one."""
from .. import dd
from ..common import program, concrete, where, spec, same
from ..configs import configs
from ..dd import literals, NOT, AND, OR
from ..interp import OBJS, Ref, num, sym, MISSING, UNDEF, new_obj, Frame, BoundV, FuncV, ClassV, _unhk
from ..net import NetModel
from ..poly import R, atom
from ..vfs import VFS
from .c01 import short

EXPL = ("Network, component, connection and bus objects are built through their constructors with symbolic values and flags; "
        "export is interpreted with an abstract file system (what is not json serialisable is an error), the documents it wrote "
        "are handed to load_network and its helpers, and every specification of the loaded objects is compared with the original, "
        "for all values and all combinations of flags at once.")
STUBS = ("pandas", "nparr")
READER = "tespy.networks.network_reader"
CMOD = "tespy.components.component"
WMOD = "tespy.tools.fluid_properties.wrappers"


def setup(P):
    N = NetModel(P)
    V = VFS(N.I, N.st)
    N.I.registry(CMOD, "component_registry", N.st, N.fr)
    N.I.registry(WMOD, "wrapper_registry", N.st, N.fr)
    N.I.intrinsics["ext:importlib.import_module"] = lambda I, a, k, st, fr: None
    for w in ("CoolPropWrapper", "IAPWSWrapper", "PyromatWrapper", "FluidPropertyWrapper"):
        N.I.intrinsics["new:" + w] = wrapper
    return N, V


def wrapper(I, cls, args, kwargs, st, fr):
    o = new_obj("object", None, path="wrapper")
    a = dict(zip(("fluid", "back_end"), args))
    a.update(kwargs)
    st.heap[(o.oid, "a", "engine")] = cls.name
    for k in ("fluid", "back_end"):
        st.heap[(o.oid, "a", k)] = a.get(k)
    return o


def reader(P, name):
    m = P.modules[READER]
    return FuncV(m.defs[name][1], m, None, None)


def call(N, f, *args, **kw):
    fr = Frame(N.fr.module, None, "<top>", None)
    fr.node = None
    v = N.I.call(f, list(args), kw, N.st, fr)
    return v, [n for pc, n, _ in fr.raises if pc is not False]


def flag(N, name):
    return N.I.truth(sym(name), N.st)


def build(N, cls, label="c"):
    return N.I.instantiate(N.P.classes[cls] if isinstance(cls, str) else cls, [label], {}, N.st, N.fr)


def keys(N, d):
    return [_unhk(k) for k in N.I.dict_keys(N.st, d)]


def kind(o):
    return OBJS[o.oid].cls.name if isinstance(o, Ref) and OBJS[o.oid].cls is not None else None


def line(N, tag, ext=None):
    lst = N.list(num(0), sym(tag + "k"), num(9))
    y = N.list(sym(tag + "a"), sym(tag + "b"), sym(tag + "c"))
    return N.new("CharLine", x=lst, y=y, extrapolate=flag(N, tag + "ext"))


def cmap(N, tag):
    def rows(t):
        return N.list(*[N.list(sym("%s%s%d%d" % (tag, t, i, 0)), sym("%s%s%d%d" % (tag, t, i, 1))) for i in range(2)])
    return N.new("CharMap", x=N.list(num(0), sym(tag + "k")), y=rows("y"), z=rows("z"))


ATTRS = {"ComponentProperties": ("val", "is_set", "is_var", "min_val", "max_val"), "FluidProperties": ("val", "is_set"),
         "ComponentCharacteristics": ("is_set", "param", "char_params", "char_func"),
         "ComponentCharacteristicMaps": ("is_set", "param", "char_func"), "GroupedComponentCharacteristics": ("is_set",),
         "SimpleDataContainer": ("val", "is_set"), "GroupedComponentProperties": (), "DataContainer": ()}


def fill(N, o, path):
    """symbolic specification of a container"""
    k = kind(o)
    for a in ATTRS.get(k, ()):
        if a in ("is_set", "is_var"):
            v = flag(N, path + "." + a)
        elif a in ("val", "min_val", "max_val"):
            v = sym(path + "." + a)
        elif a == "param":
            v = "p:" + path
        elif a == "char_params":
            v = N.dict([("type", "abs"), ("inconn", num(1)), ("outconn", num(2))])
        elif a == "char_func":
            v = cmap(N, path) if k.endswith("Maps") else line(N, path)
        N.set(o, a, v)
        # the SI value follows the value
    if k == "FluidProperties":
        N.set(o, "val_SI", sym(path + ".val_SI"))


def image(N, v, deep=0):
    """comparable image of a value"""
    def leaf(x):
        if isinstance(x, Ref):
            o = OBJS[x.oid]
            if o.kind in ("list", "tuple"):
                return ("list",) + tuple(image(N, y, deep + 1) for y in N.st.heap[(x.oid, "#")])
            if o.kind == "dict":
                return ("dict",) + tuple(sorted(((str(_unhk(k)), image(N, N.I.dict_get_hk(N.st, x, k), deep + 1)) for k in N.I.dict_keys(N.st, x)
                                                 if N.I.dict_get_hk(N.st, x, k) is not MISSING), key=str))
            if o.kind == "set":
                return ("set",) + tuple(sorted(((str(_unhk(k)), image(N, N.I.dict_get_hk(N.st, x, k))) for k in N.I.dict_keys(N.st, x)
                                                if N.I.dict_get_hk(N.st, x, k) not in (MISSING, False)), key=str))
            if o.cls is not None and o.cls.name in ("CharLine", "CharMap"):
                return (o.cls.name,) + tuple(image(N, N.get(x, a), deep + 1) for a in (("x", "y", "extrapolate") if o.cls.name == "CharLine" else ("x", "y", "z")))
            if o.cls is not None and o.cls.name == "ndarray":
                return ("list",) + tuple(image(N, y, deep + 1) for y in N.st.heap[(N.get(x, "_v").oid, "#")])
            if o.path == "wrapper":
                return ("wrapper",) + tuple(N.get(x, a) for a in ("engine", "fluid", "back_end"))
            return x
        if isinstance(x, tuple):
            return ("list",) + tuple(image(N, y, deep + 1) for y in x)
        return x
    return dd.apply(leaf, v)


def eq(a, b):
    if a is b or dd.leq(a, b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = [eq(x, y) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)) or a is None or b is None:
        from ..model import undecided
        return None if undecided(a) or undecided(b) else False
    return same(a, b)


def roundtrip(N, V, doc, where_):
    """the document as json.load returns it"""
    bad = []
    f = V.freeze(doc, N.st, bad, "")
    return (V.thaw(f, N.st) if not bad else None), bad


OPTS = (("design", "list"), ("offdesign", "list"), ("local_design", "flag"), ("local_offdesign", "flag"), ("design_path", "text"), ("printout", "flag"))


def options(N, o, names, extra=()):
    for a, k in OPTS + tuple(extra):
        if k == "list":
            v = N.list(*names[:2])
        elif k == "flag":
            v = flag(N, "opt." + a)
        else:
            v = "text of " + a
        N.set(o, a, v)


def components(ctx, P):
    n = 0
    for c in concrete(P):
        ctx.units.add(c.module.rel)
        with ctx.guard("export of " + c.name):
            N, V = setup(P)
            o = build(N, c)
            pars = N.get(o, "parameters")
            names = keys(N, pars)
            for p in names:
                fill(N, N.get(o, p), p)
            options(N, o, names, (("fkt_group", "text"), ("char_warnings", "flag")))
            f = N.meth(o, "_serialize")
            doc, exc = call(N, f)
            js, bad = roundtrip(N, V, doc, c.name)
            ctx.check(not bad and not exc, "%s is exported as json" % c.name, where(f), "not json: %s %s" % (bad[:3], exc))
            if js is None:
                continue
            reg = N.I.registries[(CMOD, "component_registry")]
            cv = N.I.dict_get(N.st, reg, c.name)
            ok = isinstance(cv, ClassV) and cv.k[0] is c
            ctx.check(ok, "%s can be loaded under its class name" % c.name, "%s (class %s)" % (c.module.rel, c.name),
                      "the class exported under this name is not in the component registry: load_network leaves the component out")
            g = reader(P, "_construct_components")
            res, exc = call(N, g, ClassV(c), js)
            ctx.check(not exc, "%s is loaded" % c.name, where(g), "raises %s" % exc)
            if exc:
                continue
            new = N.I.dict_get(N.st, res, "c")
            ctx.check(kind(new) == c.name and N.get(new, "label") == "c", "class and label of a %s" % c.name, where(g), "is %s" % new)
            for p in names:
                a, b = N.get(o, p), N.get(new, p)
                ctx.check(kind(a) == kind(b), "%s.%s remains a parameter" % (c.name, p), where(g), "is %s" % kind(b))
                for at in ATTRS.get(kind(a), ()):
                    u, v = image(N, N.get(a, at)), image(N, N.get(b, at))
                    ctx.check(eq(u, v), "%s.%s.%s" % (c.name, p, at), where(g), "is %s after loading, was %s" % (show(v), show(u)))
                    n += 1
            for a, _ in OPTS + (("fkt_group", ""), ("char_warnings", "")):
                u, v = image(N, N.get(o, a)), image(N, N.get(new, a))
                ctx.check(eq(u, v), "%s option %s" % (c.name, a), where(g), "is %s after loading, was %s" % (show(v), show(u)))
                n += 1
    ctx.count("component specifications", n)
    ctx.floor("component specifications", n, 600)


def show(v):
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(show(x) for x in v)[:160]
    return short(v)


def fluid_of(N, c, n):
    """composition with two fluids, flags symbolic"""
    fl = N.get(c, "fluid")
    for a, v in (("val", N.dict([("H2O", sym("y%d.H2O" % n)), ("N2", sym("y%d.N2" % n))])),):
        N.set(fl, a, v)
    s_ = N.I.new_set(N.st, [])
    for f in ("H2O", "N2"):
        N.I.set_add(N.st, s_, f, flag(N, "set%d.%s" % (n, f)))
    N.set(fl, "is_set", s_)
    P = N.P
    N.set(fl, "engine", N.dict([("H2O", ClassV(P.classes["IAPWSWrapper"])), ("N2", ClassV(P.classes["CoolPropWrapper"]))]))
    N.set(fl, "back_end", N.dict([("H2O", sym("be%d.H2O" % n)), ("N2", None)]))


def property_names(N, c):
    return keys(N, N.get(c, "property_data"))


def fill_connection(N, c, other, n, refs):
    for p in property_names(N, c):
        o = N.get(c, p)
        k = kind(o)
        path = "c%d.%s" % (n, p)
        if k == "FluidProperties":
            for a in ("val", "val0", "val_SI"):
                N.set(o, a, sym(path + "." + a))
            N.set(o, "is_set", flag(N, path + ".is_set"))
        elif k == "ReferencedFluidProperties" and refs:
            N.set(o, "ref", N.I.instantiate(N.P.classes["Ref"], [other, num(2 + n), num(7 + n)], {}, N.st, N.fr))
            N.set(o, "is_set", flag(N, path + ".is_set"))
        elif k == "SimpleDataContainer":
            N.set(o, "is_set", flag(N, path + ".is_set"))
    st = N.get(c, "state")
    N.set(st, "val", sym("c%d.state" % n))
    N.set(st, "is_set", flag(N, "c%d.state.is_set" % n))
    N.set(c, "mixing_rule", "rule%d" % n)
    fluid_of(N, c, n)


def connections(ctx, P):
    ctx.units.add(P.classes["Connection"].module.rel)
    n = 0
    for refs in (True, False):
        tag = "with references" if refs else "without references"
        with ctx.guard("connections " + tag):
            N, V = setup(P)
            so, tu, si = build(N, "Source", "so"), build(N, "Turbine", "tu"), build(N, "Sink", "si")
            mk = lambda a, b, l: N.I.instantiate(P.classes["Connection"], [a, "out1", b, "in1"], {"label": l}, N.st, N.fr)
            cs = [mk(so, tu, "first"), mk(tu, si, "second")]
            for i, c in enumerate(cs):
                fill_connection(N, c, cs[1 - i], i, refs)
                options(N, c, property_names(N, c)[:2])
            docs = N.dict([])
            for c in cs:
                f = N.meth(c, "_serialize")
                doc, exc = call(N, f)
                for k in keys(N, doc):
                    N.I.dict_set(N.st, docs, k, N.I.dict_get(N.st, doc, k))
            js, bad = roundtrip(N, V, docs, "connections")
            ctx.check(not bad and not exc, "connections are exported as json " + tag, where(f), "not json: %s %s" % (bad[:3], exc))
            comps = N.dict([])
            new_c = {}
            for nm, cl in (("so", "Source"), ("tu", "Turbine"), ("si", "Sink")):
                new_c[nm] = build(N, cl, nm)
                N.I.dict_set(N.st, comps, nm, new_c[nm])
            g = reader(P, "_construct_connections")
            res, exc = call(N, g, js, comps)
            ctx.check(not exc, "connections are loaded " + tag, where(g), "raises %s" % exc)
            for i, c in enumerate(cs):
                lab = N.get(c, "label")
                new = N.I.dict_get(N.st, res, lab)
                if kind(new) != "Connection":
                    ctx.check(None if isinstance(new, R) else False, "a connection exists for each label " + tag, where(g), "is %s" % new)
                    continue
                for a in ("source", "target"):
                    ctx.check(N.get(new, a) is new_c[N.get(c, a, "label")], "%s of a loaded connection %s" % (a, tag), where(g), "is %s" % N.get(new, a))
                for a in ("source_id", "target_id", "label", "mixing_rule") + tuple(x for x, _ in OPTS):
                    u, v = image(N, N.get(c, a)), image(N, N.get(new, a))
                    ctx.check(eq(u, v), "connection %s %s" % (a, tag), where(g), "is %s after loading, was %s" % (show(v), show(u)))
                    n += 1
                at = {"FluidProperties": ("val", "val0", "is_set"), "SimpleDataContainer": ("is_set", "val"), "FluidComposition": ("val", "engine", "back_end", "is_set")}
                for p in property_names(N, c) + ["state"]:
                    a, b = N.get(c, p), N.get(new, p)
                    for x in at.get(kind(a), ()):
                        u, v = image(N, N.get(a, x)), image(N, N.get(b, x))
                        ctx.check(eq(u, v), "connection %s.%s %s" % (p, x, tag), where(g), "is %s after loading, was %s" % (show(v), show(u)))
                        n += 1
                    if kind(a) == "ReferencedFluidProperties":
                        u, v = N.get(a, "is_set"), N.get(b, "is_set")
                        ctx.check(eq(u, v), "connection %s.is_set %s" % (p, tag), where(g), "is %s after loading, was %s" % (show(v), show(u)))
                        if refs:
                            r = N.get(b, "ref")
                            ok = kind(r) == "Ref" and N.get(r, "obj") is N.I.dict_get(N.st, res, N.get(cs[1 - i], "label"))
                            ctx.check(ok, "connection %s refers to the same connection" % p, where(g), "refers to %s" % r)
                            if ok:
                                for x in ("factor", "delta"):
                                    ctx.check(same(N.get(r, x), N.get(a, "ref", x)), "connection %s.%s" % (p, x), where(g), "is %s" % short(N.get(r, x)))
                                    n += 1
                # wrappers
                w = image(N, N.get(new, "fluid", "wrapper"))
                want = ("dict", ("H2O", ("wrapper", "IAPWSWrapper", "H2O", sym("be%d.H2O" % i))), ("N2", ("wrapper", "CoolPropWrapper", "N2", None)))
                ctx.check(eq(want, w), "fluid property engines and back ends of a loaded connection " + tag, where(g), "are %s" % show(w))
    ctx.count("connection specifications", n)
    ctx.floor("connection specifications", n, 150)


def network(ctx, P):
    """units and ranges"""
    ctx.units.add(P.classes["Network"].module.rel)
    with ctx.guard("network"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {}, N.st, N.fr)
        N.nw = nw
        m = P.modules["tespy.tools.global_vars"]
        fr = Frame(m, None, "<top>", None)
        fr.node = None
        fpd = N.I.eval(__import__("ast").parse("fluid_property_data", mode="eval").body, N.st, fr)
        units = {}
        for p in keys(N, fpd):
            us = keys(N, N.I.dict_get(N.st, N.I.dict_get(N.st, fpd, p), "units"))
            units[p] = us
        rounds = max(len(u) for u in units.values())
        ranges = {"m": (-3, 5), "p": (7, 11), "h": (13, 17)}
        f = N.meth(nw, "export_network")
        for r in range(rounds):
            sel = {p: us[r % len(us)] for p, us in units.items()}
            kw = {p + "_unit": u for p, u in sel.items()}
            call(N, N.meth(nw, "set_attr"), **kw)
            call(N, N.meth(nw, "set_attr"), iterinfo=bool(r % 2), **{p + "_range": N.list(num(a + r), num(b + r)) for p, (a, b) in ranges.items()})
            _, exc = call(N, f, "dir")
            ctx.check(not exc and not V.not_json, "the network is exported as json", where(f), "raises %s %s" % (exc, V.not_json[:2]))
            g = reader(P, "_construct_network")
            new, exc = call(N, g, "dir")
            ctx.check(not exc and kind(new) == "Network", "the network is loaded", where(g), "raises %s" % exc)
            if kind(new) != "Network":
                continue
            for p in units:
                u, v = N.get(nw, p + "_unit"), N.get(new, p + "_unit")
                ctx.check(u == v, "unit of %s" % p, where(N.meth(nw, "_serialize")), "is %s after loading, was %s" % (v, u))
                ctx.count("network settings")
            for p in ranges:
                for a in ("_range", "_range_SI"):
                    u, v = image(N, N.get(nw, p + a)), image(N, N.get(new, p + a))
                    ctx.check(eq(u, v), "%s%s" % (p, a), where(N.meth(nw, "_serialize")), "is %s after loading, was %s" % (show(v), show(u)))
                    ctx.count("network settings")
            u, v = N.get(nw, "iterinfo"), N.get(new, "iterinfo")
            ctx.check(eq(u, v), "iterinfo", where(N.meth(nw, "_serialize")), "is %s after loading, was %s" % (v, u))


def busses(ctx, P):
    ctx.units.add(P.classes["Bus"].module.rel)
    with ctx.guard("busses"):
        N, V = setup(P)
        tu, hx = build(N, "Turbine", "tu"), build(N, "CombustionEngine", "ce")
        b = build(N, "Bus", "power")
        N.set(N.get(b, "P"), "val", sym("bus.val"))
        N.set(N.get(b, "P"), "is_set", flag(N, "bus.is_set"))
        ch = line(N, "b1")
        spec_ = {tu: (None, "bus", ch), hx: ("TI", "component", line(N, "b2"))}
        for o, (par, base, c) in spec_.items():
            _, exc = call(N, N.meth(b, "add_comps"), N.dict([("comp", o), ("param", par), ("base", base), ("char", c)]))
        f = N.meth(b, "_serialize")
        doc, exc = call(N, f)
        js, bad = roundtrip(N, V, doc, "bus")
        ctx.check(not bad and not exc, "a bus is exported as json", where(f), "not json: %s %s" % (bad[:3], exc))
        comps = N.dict([])
        new_c = {}
        for nm, cl in (("tu", "Turbine"), ("ce", "CombustionEngine")):
            new_c[nm] = build(N, cl, nm)
            N.I.dict_set(N.st, comps, nm, new_c[nm])
        g = reader(P, "_construct_busses")
        res, exc = call(N, g, js, comps)
        ctx.check(not exc, "busses are loaded", where(g), "raises %s" % exc)
        new = N.I.dict_get(N.st, res, "power")
        for a in ("val", "is_set"):
            u, v = N.get(b, "P", a), N.get(new, "P", a)
            ctx.check(eq(u, v), "bus P.%s" % a, where(g), "is %s after loading, was %s" % (show(v), show(u)))
        for o, (par, base, c) in spec_.items():
            lab = N.get(o, "label")
            for col, want in (("param", par), ("base", base), ("char", c)):
                got = cellof(N, new, new_c[lab], col)
                ctx.check(eq(image(N, want), image(N, got)), "bus %s of %s" % (col, lab), where(g), "is %s after loading, was %s" % (show(image(N, got)), show(image(N, want))))
                ctx.count("bus specifications")


def cellof(N, bus, comp, col):
    N.self = None
    return spec(N, "b.comps.loc[c, k]", {"b": bus, "c": comp, "k": col})


def objects(N, obj, table):
    """objects of the table conns or comps of a network"""
    import ast
    fr = Frame(N.P.modules["tespy.networks.network"], None, "<top>", None)
    fr.node = None
    saved = N.st.locals
    N.st.locals = {"n": obj}
    v = N.I.eval(ast.parse("list(n.%s['object'])" % table, mode="eval").body, N.st, fr)
    N.st.locals = saved
    return N.st.heap[(v.oid, "#")]


def whole(ctx, P):
    """a network from export to load_network"""
    with ctx.guard("export and load of a whole network"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
        c = {n: build(N, k, n) for n, k in (("s1", "Source"), ("s2", "Source"), ("t1", "Sink"), ("t2", "Sink"), ("t3", "Sink"), ("hx", "HeatExchanger"),
                                             ("sp", "Splitter"), ("tu", "Turbine"))}
        call(N, N.meth(c["sp"], "set_attr"), num_out=num(2))
        topo = [("s1", "out1", "hx", "in1", "a"), ("hx", "out1", "sp", "in1", "b"), ("sp", "out2", "t1", "in1", "c"), ("sp", "out1", "tu", "in1", "d"),
                ("tu", "out1", "t2", "in1", "e"), ("s2", "out1", "hx", "in2", "f"), ("hx", "out2", "t3", "in1", "g")]
        conns = {}
        for a, i, b, o, l in topo:
            conns[l] = mk(c[a], i, c[b], o, l)
            call(N, N.meth(conns[l], "set_attr"), fluid=N.dict([("H2O", num(1))]))
        call(N, N.meth(conns["c"], "set_attr"), m=N.I.instantiate(P.classes["Ref"], [conns["d"], num(2), num(3)], {}, N.st, N.fr))
        _, exc = call(N, N.meth(nw, "add_conns"), *conns.values())
        bus = build(N, "Bus", "heat")
        call(N, N.meth(bus, "add_comps"), N.dict([("comp", c["hx"]), ("base", "component")]), N.dict([("comp", c["tu"]), ("base", "bus")]))
        _, e2 = call(N, N.meth(nw, "add_busses"), bus)
        f = N.meth(nw, "export")
        _, e3 = call(N, f, "dir")
        files = sorted(_unhk(k) for k in N.I.dict_keys(N.st, V.files))
        ctx.check(not exc and not e2 and not e3, "a network is exported", where(f), "raises %s" % (exc + e2 + e3))
        g = reader(P, "load_network")
        new, exc = call(N, g, "dir")
        ctx.check(not exc and kind(new) == "Network", "the exported network is loaded", where(g), "raises %s" % exc)
        N.self = None
        def labels(obj):
            out = {}
            for x in objects(N, obj, "conns"):
                out[N.get(x, "label")] = tuple(N.get(x, *p) for p in (("source", "label"), ("source_id",), ("target", "label"), ("target_id",)))
            return out
        u, v = labels(nw), labels(new)
        ctx.check(u == v and len(u) == len(topo), "connections of the loaded network", where(g), "are %s, were %s" % (v, u))
        def kinds(obj):
            return {N.get(x, "label"): (kind(x), x) for x in objects(N, obj, "comps")}
        u, v = kinds(nw), kinds(new)
        ctx.check({k: x[0] for k, x in u.items()} == {k: x[0] for k, x in v.items()} and len(u) == len(c), "components of the loaded network", where(g), "are %s, were %s" % (v, u))
        nb = N.I.dict_get(N.st, N.get(new, "busses"), "heat")
        ctx.check(kind(nb) == "Bus", "busses of the loaded network", where(g), "is %s" % nb)
        if kind(nb) == "Bus":
            for nm, base in (("hx", "component"), ("tu", "bus")):
                got = cellof(N, nb, v[nm][1], "base")
                ctx.check(got == base, "bus member %s of the loaded network" % nm, where(g), "base is %s" % short(got))
        ctx.check(N.get(new, "checked") is True, "the loaded network is checked", where(g), "checked is %s" % N.get(new, "checked"))
        ctx.count("files written", len(files))


def run(ctx):
    ctx.rule = "specification of the loaded object equals the specification of the exported one"
    P = program(STUBS)
    components(ctx, P)
    connections(ctx, P)
    network(ctx, P)
    busses(ctx, P)
    whole(ctx, P)
    return EXPL
