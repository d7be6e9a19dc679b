"""Design and off-design: design point data and the switch of
specifications."""
from .. import dd
from ..common import program, concrete, where, spec, same
from ..dd import literals, NOT, AND, OR
from ..interp import OBJS, Ref, num, sym, MISSING, UNDEF, new_obj, Frame, BoundV, FuncV, ClassV, _unhk
from ..net import NetModel
from ..poly import R, atom
from ..vfs import VFS
from .c01 import short
from .c08 import setup, build, call, flag, kind, keys, eq, image, show, objects, line
from . import c08

EXPL = ("A network is built through its constructors with symbolic values and flags, its results are written by the postprocessing "
        "and save code to an abstract file system and read back by the off-design initialisation: the design value of every "
        "connection property, component parameter and bus member is compared with the value that was saved, in every unit; the "
        "flags of all specifications before and after init_offdesign / init_design are compared for all combinations of flags.")
STUBS = ("pandas", "nparr")
NET = "tespy.networks.network.Network."
CON = "tespy.connections.connection.Connection."
NAN = sym("nan")


def fpd(N):
    m = N.P.modules["tespy.tools.global_vars"]
    fr = Frame(m, None, "<top>", None)
    fr.node = None
    return N.I.eval(__import__("ast").parse("fluid_property_data", mode="eval").body, N.st, fr)


CLASSES = (("tu", "Turbine"), ("hx", "HeatExchanger"), ("pi", "Pipe"), ("tu2", "Turbine"))


def net(P):
    """so -> tu -> hx -> pi -> tu2 -> si, so2 -> hx -> si2"""
    N, V = setup(P)
    nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
    N.nw = nw
    c = {n: build(N, k, "11" if n == "pi" else n) for n, k in (("so", "Source"), ("so2", "Source"), ("si", "Sink"), ("si2", "Sink")) + CLASSES}
    mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
    topo = [("so", "out1", "tu", "in1", "1"), ("tu", "out1", "hx", "in1", "2"), ("hx", "out1", "pi", "in1", "3"), ("pi", "out1", "tu2", "in1", "4"),
            ("tu2", "out1", "si", "in1", "5"), ("so2", "out1", "hx", "in2", "6"), ("hx", "out2", "si2", "in1", "7")]
    conns = {l: mk(c[a], i, c[b], o, l) for a, i, b, o, l in topo}
    for x in conns.values():
        call(N, N.meth(x, "set_attr"), fluid=N.dict([("H2O", num(1))]))
    _, exc = call(N, N.meth(nw, "add_conns"), *conns.values())
    assert not exc, exc
    _, exc = call(N, N.meth(nw, "check_network"))
    assert not exc, exc
    I = N.I.intrinsics
    nop = lambda I, a, k, st, fr, fv: None
    for q in (CON + "simplify_specifications", CON + "preprocess", NET + "_assign_variable_space"):
        I[q] = nop
    for o in c.values():
        for a, v in (("vars", N.dict([])), ("num_vars", num(0)), ("num_eq", num(0))):
            N.set(o, a, v)
        for s in ("prop_specifications", "char_specifications", "var_specifications", "group_specifications"):
            N.set(o, s, N.dict([]))
    cls = {OBJS[o.oid].cls for o in c.values()}
    for k in cls:
        f = k.find("preprocess")
        I[f[0].module.name + "." + f[0].name + ".preprocess"] = nop
    for a in ("num_conn_vars", "num_comp_vars", "num_comp_eq", "num_bus_eq", "num_conn_eq"):
        N.set(nw, a, num(0))
    N.set(nw, "variables_dict", N.dict([]))
    N.c, N.conns, N.V = c, conns, V
    return N


def set_units(N, r, fp):
    sel = {}
    for p in keys(N, fp):
        us = keys(N, N.I.dict_get(N.st, N.I.dict_get(N.st, fp, p), "units"))
        sel[p] = us[r % len(us)]
    sel["Td_bp"] = sel["T"]
    for c in N.conns.values():
        for p, u in sel.items():
            N.set(N.get(c, p), "unit", u)
    return sel


def results(N, fp):
    """values of a finished calculation"""
    hm = N.P.modules["tespy.tools.helpers"]
    conv = FuncV(hm.defs["convert_from_SI"][1], hm, None, None)
    for l, c in N.conns.items():
        for p in keys(N, fp):
            o = N.get(c, p)
            v = sym("%s%s.SI" % (p, l))
            N.set(o, "val_SI", v)
            N.set(o, "val", call(N, conv, p, v, N.get(o, "unit"))[0])
        N.set(N.get(c, "vol"), "val_SI", sym("v%s.SI" % l) / sym("m%s.SI" % l))
        o = N.get(c, "vol")
        N.set(o, "val", call(N, conv, "vol", N.get(o, "val_SI"), N.get(o, "unit"))[0])
        N.set(N.get(c, "fluid"), "val", N.dict([("H2O", sym("y%s" % l)), ("N2", num(1) - sym("y%s" % l))]))
    N.set(N.nw, "all_fluids", N.I.new_set(N.st, ["H2O", "N2"]))
    nop = lambda I, a, k, st, fr, fv: None
    N.I.intrinsics[CON + "calc_results"] = nop
    for n, o in N.c.items():
        k = OBJS[o.oid].cls
        for m in ("calc_parameters", "check_parameter_bounds"):
            f = k.find(m)
            N.I.intrinsics[f[0].module.name + "." + f[0].name + "." + m] = nop
        for p in keys(N, N.get(o, "parameters")):
            d = N.get(o, p)
            if "ComponentProperties" == kind(d):
                N.set(d, "val", sym("%s.%s" % (n, p)))
                N.set(d, "is_set", flag(N, "%s.%s.set" % (n, p)))
                N.set(d, "design", sym("old"))
    # the table of the connections is made by init_set_properties
    cols = [x for p in keys(N, fp) for x in (p, p + "_unit")] + ["H2O", "N2", "phase"]
    df = ev(N, "pd.DataFrame(columns=cols)", cols=N.list(*cols))
    N.I.dict_set(N.st, N.get(N.nw, "results"), "Connection", df)


def isresult(N, d):
    """the result table reports the value of this parameter"""
    f = N.get(d, "func")
    return OR(f is not None, OR(N.get(d, "is_set"), N.get(d, "is_result")))


def ev(N, text, **env):
    """value of an expression in the module of the network, in place"""
    import ast
    fr = Frame(N.P.modules["tespy.networks.network"], None, "<top>", None)
    fr.node = None
    saved = N.st.locals
    N.st.locals = env
    v = N.I.eval(ast.parse(text, mode="eval").body, N.st, fr)
    N.st.locals = saved
    return v


def design_data(ctx, P):
    """what is saved is what the off-design calculation uses"""
    probe = net(P)
    fp0 = fpd(probe)
    rounds = max(len(keys(probe, probe.I.dict_get(probe.st, probe.I.dict_get(probe.st, fp0, p), "units"))) for p in keys(probe, fp0))
    for r in range(rounds):
        with ctx.guard("design point data, units %d" % r):
            N = net(P)
            nw = N.nw
            fp = fpd(N)
            sel = set_units(N, r, fp)
            results(N, fp)
            bus = build(N, "Bus", "bus")
            call(N, N.meth(bus, "add_comps"), N.dict([("comp", N.c["tu"]), ("base", "bus")]), N.dict([("comp", N.c["hx"]), ("base", "component")]))
            call(N, N.meth(nw, "add_busses"), bus)
            for n in ("tu", "hx"):
                k = OBJS[N.c[n].oid].cls
                for m, v in (("calc_bus_value", "bus"), ("bus_func", "cmp"), ("calc_bus_efficiency", "eff"), ("calc_bus_expr", "expr")):
                    f = k.find(m)
                    N.I.intrinsics[f[0].module.name + "." + f[0].name + "." + m] = (
                        lambda I, a, kk, st, fr, fv, v=v: sym("%s:%s" % (v, I.getattr_(a[0] if OBJS[a[0].oid].cls is not None else fv.k[1], "label", st, fr))))
            N.set(nw, "mode", "design")
            for f in ("process_connections", "process_components", "process_busses"):
                _, exc = call(N, N.meth(nw, f))
                ctx.check(not exc, "%s ends without exception" % f, where(N.meth(nw, f)), "raises %s" % exc)
            sv = N.meth(nw, "save")
            _, exc = call(N, sv, "des")
            ctx.check(not exc, "the results are saved", where(sv), "raises %s" % exc)
            # a fresh calculation in other units
            set_units(N, r + 1, fp)
            N.set(nw, "mode", "offdesign")
            N.set(nw, "design_path", "des")
            call(N, N.meth(bus, "set_attr"))
            g = N.meth(nw, "init_offdesign_params")
            for c in N.conns.values():
                for p in keys(N, fp):
                    N.set(N.get(c, p), "val_SI", sym("other"))
                    N.set(N.get(c, p), "design", sym("stale"))
            _, exc = call(N, g)
            ctx.check(not exc, "the design point data is read", where(g), "raises %s" % exc)
            for l, c in N.conns.items():
                for p in keys(N, fp):
                    got = N.get(c, p, "design")
                    want = sym("%s%s.SI" % (p, l)) if p != "vol" else sym("v%s.SI" % l) / sym("m%s.SI" % l)
                    got = dd.restrict(got, literals(spec_ne(N, N.get(c, "m", "design"))))
                    ctx.check(same(got, want), "design value of %s (saved in %s)" % (p, sel[p]), where(g), "is %s, saved was %s" % (short(got), short(want)))
                    ctx.count("design values")
                fl = N.get(c, "fluid", "design")
                for f, want in (("H2O", sym("y%s" % l)), ("N2", num(1) - sym("y%s" % l))):
                    got = N.I.dict_get(N.st, fl, f)
                    ctx.check(same(got, want), "design composition", where(g), "is %s, saved was %s" % (short(got), short(want)))
            for n, o in N.c.items():
                for p in keys(N, N.get(o, "parameters")):
                    d = N.get(o, p)
                    if kind(d) != "ComponentProperties":
                        continue
                    want = dd.ite(isresult(N, d), sym("%s.%s" % (n, p)), NAN)
                    got = N.get(d, "design")
                    ctx.check(same(got, want), "design value of %s.%s" % (kind(o), p), where(g), "of %s is %s, saved was %s" % (n, short(got), short(want)))
                    ctx.count("design values")
            for n, want in (("tu", sym("bus:tu")), ("hx", sym("cmp:hx"))):
                got = c08.cellof(N, bus, N.c[n], "P_ref")
                ctx.check(same(got, want), "reference value of a bus member with base %s" % ("bus" if n == "tu" else "component"), where(g), "is %s, saved was %s" % (short(got), short(want)))
                ctx.count("design values")
    ctx.floor("design values", ctx.counts.get("design values", 0), 150)


def init_data(ctx, P):
    """what is saved is what a calculation with init path starts from"""
    for r in range(2):
        key = "starting values from a saved calculation, units %d" % r
        with ctx.guard(key):
            N = net(P)
            nw, fp = N.nw, fpd(N)
            set_units(N, r, fp)
            results(N, fp)
            N.set(nw, "mode", "design")
            _, exc = call(N, N.meth(nw, "process_connections"))
            assert not exc, exc
            # connection 7 is missing in the file
            ev(N, "n.results['Connection'].drop('7', inplace=True)", n=nw)
            _, exc = call(N, N.meth(nw, "save"), "ini")
            assert not exc, exc
            set_units(N, r + 1, fp)
            nop = lambda I, a, k, st, fr, fv: None
            for q in ("init_count_connections_parameters", "init_precalc_properties"):
                N.I.intrinsics[NET + q] = nop
            N.I.intrinsics[CON + "build_fluid_data"] = nop

            def guess(I, a, k, st, fr, fv):
                d = I.getattr_(a[-2], a[-1], st, fr)
                I.setattr_(d, "val0", sym("guess"), st, fr)
                return None
            N.I.intrinsics[NET + "init_val0"] = guess
            spec = {"m": "3", "p": "2", "h": "4"}
            for l, c in N.conns.items():
                N.set(c, "good_starting_values", False)
                for p in "mph":
                    d = N.get(c, p)
                    on = spec[p] == l
                    for a, v in (("is_var", not on), ("is_set", on), ("val_SI", sym("spec" + p) if on else sym("stale"))):
                        N.set(d, a, v)
                for p in keys(N, fp):
                    if p not in "mph":
                        N.set(N.get(c, p), "is_set", False)
                f = N.get(c, "fluid")
                N.set(f, "val", N.dict([("H2O", sym("a" + l)), ("N2", num(1) - sym("a" + l))]))
                N.set(f, "val0", N.dict([]))
                N.set(f, "is_var", N.I.new_set(N.st, ["H2O", "N2"] if l in "127" else ["N2"] if l == "3" else []))
            ref = ev(N, "pd.DataFrame(columns=['m_ref'])")
            for l in N.conns:
                ev(N, "df.loc.__setitem__(l, v)", df=ref, l=l, v=N.list(False))
            N.set(nw, "specifications", N.dict([("Ref", ref)]))
            N.set(nw, "init_path", "ini")
            f = N.meth(nw, "init_properties")
            _, exc = call(N, f)
            if not ctx.check(not exc, key, where(f), "raises %s" % exc):
                continue
            hm = N.P.modules["tespy.tools.helpers"]
            conv = FuncV(hm.defs["convert_to_SI"][1], hm, None, None)
            for l, c in N.conns.items():
                for p in "mph":
                    got = N.get(c, p, "val_SI")
                    if spec[p] == l:
                        ctx.check(same(got, sym("spec" + p)), "a specified %s is not a starting value" % p, where(f), "of connection %s becomes %s" % (l, short(got)))
                        continue
                    want = sym("%s%s.SI" % (p, l)) if l != "7" else call(N, conv, p, sym("guess"), N.get(c, p, "unit"))[0]
                    ctx.check(same(got, want), "starting value of %s %s" % (p, "read from the file" if l != "7" else "of a connection missing in the file"), where(f), "connection %s: is %s, expected %s" % (l, short(got), short(want)))
                    ctx.count("starting values")
                var = names_(N, N.get(c, "fluid", "is_var"))
                for x, saved, own in (("H2O", sym("y" + l), sym("a" + l)), ("N2", num(1) - sym("y" + l), num(1) - sym("a" + l))):
                    got = N.I.dict_get(N.st, N.get(c, "fluid", "val"), x)
                    want = saved if x in var and l != "7" else own
                    ctx.check(same(got, want), "starting mass fraction, %s" % ("variable" if x in var else "not a variable"), where(f), "of %s at connection %s is %s, expected %s" % (x, l, short(got), short(want)))
    ctx.floor("starting values", ctx.counts.get("starting values", 0), 30)


def names_(N, s):
    return {str(x) for x in N.I.iterate_value(s, N.st)}


def spec_ne(N, v):
    N.self = None
    return NOT(spec(N, "x == 0", {"x": v}))


def own_path(ctx, P):
    """individual design paths"""
    with ctx.guard("individual design path"):
        N = net(P)
        nw, fp = N.nw, fpd(N)
        set_units(N, 0, fp)
        N.set(nw, "mode", "design")
        for path, mark in (("A", ""), ("B", "B")):
            results(N, fp)
            for l, c in N.conns.items():
                for p in keys(N, fp):
                    N.set(N.get(c, p), "val", sym("%s%s%s" % (p, l, path)))
            for n, o in N.c.items():
                for p in keys(N, N.get(o, "parameters")):
                    if kind(N.get(o, p)) == "ComponentProperties":
                        N.set(N.get(o, p), "val", sym("%s.%s.%s" % (n, p, path)))
            for f in ("process_connections", "process_components"):
                call(N, N.meth(nw, f))
            call(N, N.meth(nw, "save"), path)
        f = N.meth(N.c["tu2"], "set_attr")
        for o in (N.c["tu2"], N.conns["5"]):
            N.set(o, "new_design", False)
            call(N, N.meth(o, "set_attr"), design_path="B")
            ctx.check(N.get(o, "new_design") is True, "a new design path of a %s makes the design point be read again" % kind(o), where(N.meth(o, "set_attr")), "new_design is %s" % N.get(o, "new_design"))
        N.set(nw, "mode", "offdesign")
        N.set(nw, "design_path", "A")
        g = N.meth(nw, "init_offdesign_params")
        _, exc = call(N, g)
        ctx.check(not exc, "design point data with individual design paths is read", where(g), "raises %s" % exc)
        for n, o in N.c.items():
            for p in keys(N, N.get(o, "parameters")):
                d = N.get(o, p)
                if kind(d) == "ComponentProperties":
                    want = dd.ite(isresult(N, d), sym("%s.%s.%s" % (n, p, "B" if n == "tu2" else "A")), NAN)
                    ctx.check(same(N.get(d, "design"), want), "the design value of %s comes from %s path" % (n, "its own" if n == "tu2" else "the network's"),
                              where(g), "%s is %s, expected %s" % (p, short(N.get(d, "design")), short(want)))
        for l, c in N.conns.items():
            for p in ("p", "T", "v"):
                got = N.get(c, p, "design")
                ats = {a.args[0] for a in got.atoms()} if isinstance(got, R) else set()
                want = "%s%s%s" % (p, l, "B" if l == "5" else "A")
                ctx.check(want in ats, "the design value of connection %s comes from %s path" % (l, "its own" if l == "5" else "the network's"),
                          where(g), "%s is %s" % (p, short(got)))
        # local off-design in a design calculation
        for o in (N.c["tu2"], N.c["pi"], N.conns["5"]):
            call(N, N.meth(o, "set_attr"), design_path="B", local_offdesign=True)
        N.set(nw, "mode", "design")
        N.set(nw, "redesign", False)
        g = N.meth(nw, "init_design")
        _, exc = call(N, g)
        ctx.check(not exc, "design point data of local off-design members is read", where(g), "raises %s" % exc)
        if not exc:
            for n, o in N.c.items():
                for p in keys(N, N.get(o, "parameters")):
                    d = N.get(o, p)
                    if kind(d) == "ComponentProperties":
                        want = dd.ite(isresult(N, d), sym("%s.%s.B" % (n, p)), NAN) if n in ("tu2", "pi") else NAN
                        ctx.check(same(N.get(d, "design"), want), "design value of %s in a design calculation%s" % (n, ", local off-design" if n in ("tu2", "pi") else ""),
                                  where(g), "%s is %s, expected %s" % (p, short(N.get(d, "design")), short(want)))
            for p in ("p", "T", "v"):
                got = N.get(N.conns["5"], p, "design")
                ats = {a.args[0] for a in got.atoms()} if isinstance(got, R) else set()
                ctx.check("%s5B" % p in ats, "the design value of a local off-design connection comes from its own path", where(g), "%s is %s" % (p, short(got)))
        # a connection that is not part of the design case
        x = N.conns["3"]
        N.set(x, "label", "renamed")
        df = call(N, FuncV(*func(P, "Network", "init_read_connections")), "A")[0]
        _, exc = call(N, N.meth(nw, "init_conn_design_params"), x, df)
        ctx.check(exc == ["TESPyNetworkError"], "a connection missing in the design case is refused", where(N.meth(nw, "init_conn_design_params")), "raises %s" % (exc or "nothing"))


def func(P, cls, name):
    f = P.classes[cls].find(name)
    return f[1], f[0].module, f[0], None


def set_parameters(ctx, P):
    """set_parameters of every class"""
    for c in concrete(P):
        with ctx.guard("set_parameters of " + c.name):
            for mode, ld, lo, reads in (("offdesign", False, False, True), ("offdesign", False, True, True), ("offdesign", True, False, False),
                                        ("design", False, False, False), ("design", False, True, True), ("design", True, False, False)):
                N, V = setup(P)
                o = build(N, c)
                N.set(o, "local_design", ld)
                N.set(o, "local_offdesign", lo)
                N.set(o, "new_design", False)
                names = [p for p in keys(N, N.get(o, "parameters")) if kind(N.get(o, p)) == "ComponentProperties"]
                data = N.dict([(p, sym("d." + p)) for p in names])
                f = N.meth(o, "set_parameters")
                _, exc = call(N, f, mode, data)
                ctx.check(not exc, "%s.set_parameters ends without exception" % c.name, where(f), "raises %s" % exc)
                for p in names:
                    got = N.get(o, p, "design")
                    want = sym("d." + p) if reads else NAN
                    ctx.check(same(got, want), "%s.%s: design value in %s mode%s%s" % (c.name, p, mode, ", local design" if ld else "", ", local off-design" if lo else ""),
                              where(f), "is %s, expected %s" % (short(got), short(want)))
                    ctx.count("design value rules")


def switching(ctx, P):
    """flags before and after"""
    want_conn = ["p", "T", "v", "h", "x", "m"]
    for mode, redesign in (("offdesign", True), ("design", True), ("design", False)):
        for local in (None, "design", "offdesign"):
            key = "%s mode%s%s" % (mode, ", after an off-design calculation" if redesign and mode == "design" else "", ", local_%s" % local if local else "")
            with ctx.guard(key):
                N = net(P)
                nw, fp = N.nw, fpd(N)
                N.set(nw, "redesign", redesign)
                N.set(nw, "mode", mode)
                N.set(nw, "design_path", "des")
                f = N.meth(nw, "init_offdesign" if mode == "offdesign" else "init_design")
                N.I.intrinsics[NET + "init_read_connections"] = lambda I, a, k, st, fr, fv: sym("table:%s" % (a[-1],))

                def rd(I, a, k, st, fr, fv):
                    c = [x for x in a if isinstance(x, Ref) and kind(x) == "Connection"][0]
                    for p in keys(N, fp):
                        o = I.getattr_(c, p, st, fr)
                        st.heap[(o.oid, "a", "design")] = sym("design:%s:%s" % (I.getattr_(c, "label", st, fr), p))
                    return None
                N.I.intrinsics[NET + "init_conn_design_params"] = rd
                c = N.conns["2"]
                D, O = ["p", "T"], ["v", "h"]
                before = {}
                for l, x in N.conns.items():
                    for p in keys(N, N.get(x, "property_data")):
                        d = N.get(x, p)
                        if kind(d) in ("FluidProperties", "ReferencedFluidProperties", "SimpleDataContainer"):
                            v = flag(N, "%s.%s" % (l, p))
                            N.set(d, "is_set", v)
                            before[l, p] = v
                            N.set(d, "val_SI", sym("%s.%s.SI" % (l, p)))
                            if mode == "offdesign":
                                N.set(d, "design", sym("design:%s:%s" % (l, p)))
                N.set(c, "design", N.list(*D))
                N.set(c, "offdesign", N.list(*O))
                hx, pi = N.c["hx"], N.c["pi"]
                cd, co = ["pr1", "ttd_u"], ["zeta1", "kA_char"]
                cb = {}
                for n, o in N.c.items():
                    for p in keys(N, N.get(o, "parameters")):
                        d = N.get(o, p)
                        v = flag(N, "%s.%s" % (n, p))
                        N.set(d, "is_set", v)
                        cb[n, p] = v
                        if kind(d) == "ComponentProperties":
                            N.set(d, "val", sym("%s.%s.val" % (n, p)))
                            if mode == "offdesign" or local == "offdesign" and n == "hx":
                                N.set(d, "design", sym("%s.%s.design" % (n, p)))
                N.set(hx, "design", N.list(*cd))
                N.set(hx, "offdesign", N.list(*co))
                if local:
                    for o in (c, hx):
                        N.set(o, "local_" + local, True)
                if local == "offdesign":
                    N.set(c, "design_path", "own")
                _, exc = call(N, f)
                ctx.check(not exc, "no exception: " + key, where(f), "raises %s" % exc)
                to_off = (mode == "offdesign" and local != "design") or (mode == "design" and local == "offdesign")
                back = mode == "design" and redesign and not to_off
                for (l, p), v in before.items():
                    d = N.get(N.conns[l], p)
                    w = v
                    if l == "2":
                        if to_off and p in D:
                            w = False
                        elif to_off and p in O:
                            w = True
                        elif back and p in D:
                            w = True
                        elif back and p in O:
                            w = False
                        elif mode == "offdesign" and to_off and p.endswith("_ref") and p[:-4] in D:
                            w = False
                        elif to_off and p.endswith("_ref") and p[:-4] in D:
                            continue
                    got = N.get(d, "is_set")
                    ctx.check(eq(got, w), "connection specification %s, %s: %s" % (p, "listed" if l == "2" else "other connection", key), where(f),
                              "is_set is %s, expected %s" % (show(got), show(w)))
                    ctx.count("switched specifications")
                    if l == "2" and to_off and p in O:
                        got = N.get(d, "val_SI")
                        ctx.check(same(got, sym("design:2:%s" % p)), "value of off-design connection parameter %s: %s" % (p, key), where(f),
                                  "is %s, not the design value" % short(got))
                for (n, p), v in cb.items():
                    d = N.get(N.c[n], p)
                    w = v
                    if n == "hx":
                        if to_off and p in cd:
                            w = False
                        elif to_off and p in co:
                            w = True
                        elif back and p in cd:
                            w = True
                        elif back and p in co:
                            w = False
                    got = N.get(d, "is_set")
                    ctx.check(eq(got, w), "component specification %s, %s: %s" % (p, "listed" if n == "hx" else "other component", key), where(f),
                              "is_set of %s is %s, expected %s" % (n, show(got), show(w)))
                    ctx.count("switched specifications")
                    if kind(d) == "ComponentProperties":
                        want = sym("%s.%s.design" % (n, p)) if n == "hx" and to_off and p in co else sym("%s.%s.val" % (n, p))
                        got = N.get(d, "val")
                        ctx.check(same(got, want), "value of component parameter %s: %s" % (p, key), where(f), "of %s is %s, expected %s" % (n, short(got), short(want)))
                # afterwards
                if mode == "design":
                    for l, x in N.conns.items():
                        if l == "2" and local == "offdesign":
                            continue
                        for p in ("m", "p", "h"):
                            ctx.check(same(N.get(x, p, "design"), NAN), "a design calculation forgets the old design value of %s" % p, where(f), "is %s" % short(N.get(x, p, "design")))
                    for o in [x for l, x in N.conns.items() if l != "2"] + [o for n, o in N.c.items() if n != "hx"]:
                        ctx.check(N.get(o, "new_design") is True, "after a design calculation the design point is read again (%s)" % kind(o), where(f), "new_design is %s" % N.get(o, "new_design"))
    # missing design path of a local off-design connection
    with ctx.guard("local off-design without path"):
        N = net(P)
        N.set(N.nw, "redesign", False)
        N.set(N.nw, "mode", "design")
        N.set(N.conns["2"], "local_offdesign", True)
        f = N.meth(N.nw, "init_design")
        _, exc = call(N, f)
        ctx.check(exc[:1] == ["TESPyNetworkError"], "local off-design without a design path is refused", where(f), "raises %s" % (exc or "nothing"))


def flow(ctx, P):
    """which initialisation runs"""
    N0 = net(P)
    for mode in ("design", "offdesign"):
        for path in (None, "des"):
            for new in (True, False):
                key = "mode %s, design path %s, design case %s" % (mode, "given" if path else "missing", "new" if new else "known")
                with ctx.guard(key):
                    N = net(P)
                    nw = N.nw
                    seen = []

                    def rec(name):
                        def h(I, a, k, st, fr, fv):
                            if st.pc is not False:
                                seen.append(name)
                            return None
                        return h
                    for n in ("propagate_fluid_wrappers", "presolve_massflow_topology", "presolve_fluid_topology", "init_set_properties",
                              "init_offdesign_params", "init_offdesign", "init_design", "init_properties"):
                        N.I.intrinsics[NET + n] = rec(n)
                    N.set(nw, "mode", mode)
                    N.set(nw, "design_path", path)
                    N.set(nw, "new_design", new)
                    N.set(nw, "redesign", False)
                    f = N.meth(nw, "initialise")
                    _, exc = call(N, f)
                    if mode == "offdesign" and path is None:
                        ctx.check(exc == ["TESPyNetworkError"], "off-design without design path is refused: " + key, where(f), "raises %s" % (exc or "nothing"))
                        continue
                    want = {"design": [], "offdesign": ["init_offdesign"]}[mode] + (["init_design"] if mode == "design" else [])
                    if mode == "offdesign" and new:
                        want = ["init_offdesign_params"] + want
                    got = [x for x in seen if x in ("init_offdesign_params", "init_offdesign", "init_design")]
                    ctx.check(got == want and not exc, "initialisation steps: " + key, where(f), "are %s, expected %s %s" % (got, want, exc))
                    if mode == "offdesign":
                        ctx.check(N.get(nw, "redesign") is True, "a later design calculation restores the design specifications", where(f), "redesign is %s" % N.get(nw, "redesign"))
    # when is a design case new
    for old, path in (("des", "des"), ("des", "other"), (None, "des"), ("des", None)):
        for who in (None, "conn", "comp"):
            key = "design path %s after %s%s" % (path, old, ", changed %s" % who if who else "")
            with ctx.guard(key):
                N = net(P)
                nw = N.nw
                N.set(nw, "design_path", old)
                for o in list(N.conns.values()) + list(N.c.values()):
                    N.set(o, "new_design", False)
                if who == "conn":
                    N.set(N.conns["7"], "new_design", True)
                elif who == "comp":
                    N.set(N.c["tu2"], "new_design", True)
                got = []

                def ini(I, a, k, st, fr, fv):
                    got.append((st.pc, I.getattr_(nw, "new_design", st, fr), I.getattr_(nw, "design_path", st, fr)))
                    return None
                N.I.intrinsics[NET + "initialise"] = ini
                N.I.intrinsics[NET + "reset_topology_reduction_specifications"] = lambda I, a, k, st, fr, fv: None
                f = N.meth(nw, "solve")
                _, exc = call(N, f, "offdesign", design_path=path, init_only=True)
                want = path != old or path is None or who is not None
                ctx.check(len(got) == 1 and got[0][1] is want and got[0][2] == path, "design case is%s read again: %s" % ("" if want else " not", key), where(f), "%s %s" % (got, exc))


def run(ctx):
    ctx.rule = "design value equals saved value; specification flags after the switch equal the documented ones"
    P = program(STUBS)
    ctx.units.update(P.modules[m].rel for m in ("tespy.networks.network", "tespy.components.component", "tespy.connections.connection", "tespy.connections.bus"))
    set_parameters(ctx, P)
    design_data(ctx, P)
    init_data(ctx, P)
    own_path(ctx, P)
    switching(ctx, P)
    flow(ctx, P)
    return EXPL
