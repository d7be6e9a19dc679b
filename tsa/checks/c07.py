"""Units: every quantity crosses the boundary between the user's units and SI
through the factor of its own property and unit."""
from fractions import Fraction as Fr

from .. import dd
from ..common import program, where, spec, same, concrete
from ..interp import OBJS, Ref, num, sym, new_obj, FuncV, Frame, _unhk, MISSING
from ..model import Model
from ..net import NetModel, const
from ..poly import R, ZERO
from .c01 import short
from .c06 import new_conn

EXPL = ("The unit table is read from the source and compared with the physical factors; the conversion functions are evaluated "
        "symbolically for every property and unit (including their composition), and every place where user values enter or "
        "leave the SI system is interpreted with a different unit per property.")

# SI value = (value + offset) * factor
UNITS = {
    "m": {"kg / s": 1, "kg / min": Fr(1, 60), "kg / h": Fr(1, 3600), "t / h": Fr(10, 36), "g / s": Fr(1, 1000)},
    "v": {"m3 / s": 1, "m3 / min": Fr(1, 60), "m3 / h": Fr(1, 3600), "l / s": Fr(1, 1000), "l / min": Fr(1, 60000), "l / h": Fr(1, 3600000)},
    "p": {"Pa": 1, "kPa": 1000, "psi": Fr("6894.757"), "bar": 10 ** 5, "atm": 101325, "MPa": 10 ** 6},
    "h": {"J / kg": 1, "kJ / kg": 1000, "MJ / kg": 10 ** 6, "cal / kg": Fr("4.184"), "kcal / kg": 4184, "Wh / kg": 3600, "kWh / kg": 3600000},
    "T": {"K": (0, 1), "R": (0, Fr(5, 9)), "C": (Fr("273.15"), 1), "F": (Fr("459.67"), Fr(5, 9))},
    "Td_bp": {"K": 1, "R": Fr(5, 9), "C": 1, "F": Fr(5, 9)},
    "vol": {"m3 / kg": 1, "l / kg": Fr(1, 1000)},
    "x": {"-": 1, "%": Fr(1, 100), "ppm": Fr(1, 10 ** 6)},
    "s": {"J / kgK": 1, "kJ / kgK": 1000, "MJ / kgK": 10 ** 6},
}
SI = {"m": "kg / s", "v": "m3 / s", "p": "Pa", "h": "J / kg", "T": "K", "Td_bp": "K", "vol": "m3 / kg", "x": "-", "s": "J / kgK"}
PICK = {"m": "kg / h", "v": "l / s", "p": "bar", "h": "kJ / kg", "T": "F", "Td_bp": "R", "vol": "l / kg", "x": "%", "s": "kJ / kgK"}
ALT = {"m": "t / h", "v": "m3 / h", "p": "psi", "h": "Wh / kg", "T": "C", "Td_bp": "K", "vol": "m3 / kg", "x": "ppm", "s": "MJ / kgK"}


def affine(prop, unit):
    f = UNITS[prop][unit]
    return (Fr(f[0]), Fr(f[1])) if isinstance(f, tuple) else (Fr(0), Fr(f))


def close(a, b):
    return abs(a - b) <= abs(b) * Fr(1, 20000)


class H:
    """spec() on a network model"""
    def __init__(self, N):
        self.I, self.st, self.P, self.self = N.I, N.st, N.P, N.nw


def hlp(N, name, *args):
    m = N.P.modules["tespy.tools.helpers"]
    f = N.I.global_name(m, name, N.st)
    return N.I.call(f, list(args), {}, N.st, N.fr)


def to_si(N, prop, v, unit):
    return hlp(N, "convert_to_SI", prop, v, unit)


def run(ctx):
    ctx.rule = "value_SI == (value + offset(unit)) * factor(unit) at every boundary, and the inverse on the way out"
    P = program()
    for part in (table, functions, properties, limits, starts, files, parameters, results, ambient):
        with ctx.guard(part.__name__):
            part(ctx, P)
    ctx.floor("units", ctx.counts.get("units", 0), 35)
    return EXPL


def read_table(P, N):
    m = P.modules["tespy.tools.global_vars"]
    return N.I.global_name(m, "fluid_property_data", N.st)


def table(ctx, P):
    N = NetModel(P)
    ctx.units.add("src/tespy/tools/global_vars.py")
    t = read_table(P, N)
    for _, prop, d in N.I.dict_items(N.st, t):
        us = N.I.dict_get(N.st, d, "units")
        si = N.I.dict_get(N.st, d, "SI_unit")
        for _, u, f in N.I.dict_items(N.st, us):
            key = "unit %s of %s" % (u, prop)
            with ctx.guard(key):
                vals = N.I.iterate(f, N.st) if isinstance(f, Ref) else None
                if vals is not None:
                    off, fac = [x.const_val() for x in vals]
                else:
                    off, fac = Fr(0), f.const_val()
                if u == si:
                    ctx.check(off == 0 and fac == 1, key + " is the SI unit", "src/tespy/tools/global_vars.py", "offset %s, factor %s" % (off, fac))
                if prop in UNITS and u in UNITS[prop]:
                    a, b = affine(prop, u)
                    ctx.check(close(fac, b) and (close(off, a) if a else off == 0), key, "src/tespy/tools/global_vars.py",
                              "offset %s, factor %s instead of %s, %s" % (off, float(fac), a, float(b)))
                    ctx.count("units")
        if prop in UNITS:
            have = {u for _, u, _ in N.I.dict_items(N.st, us)}
            ctx.check(set(UNITS[prop]) <= have, "units of %s" % prop, "src/tespy/tools/global_vars.py", "missing %s" % (set(UNITS[prop]) - have))
            ctx.check(si == SI[prop], "SI unit of %s" % prop, "src/tespy/tools/global_vars.py", "is %s" % si)
    props = {p for _, p, _ in N.I.dict_items(N.st, t)}
    ctx.check(set(UNITS) <= props, "properties with units", "src/tespy/tools/global_vars.py", "missing %s" % (set(UNITS) - props))


def factors(N, prop, u):
    t = N.I.dict_get(N.st, N.I.dict_get(N.st, N.I.dict_get(N.st, read_table(N.P, N), prop), "units"), u)
    if isinstance(t, Ref):
        return N.I.iterate(t, N.st)
    return [ZERO, t]


def functions(ctx, P):
    ctx.units.add("src/tespy/tools/helpers.py")
    N = NetModel(P)
    v = sym("value")
    for prop in UNITS:
        for u in UNITS[prop]:
            key = "conversion of %s in %s" % (prop, u)
            with ctx.guard(key):
                a, b = factors(N, prop, u)
                s = to_si(N, prop, v, u)
                w = "src/tespy/tools/helpers.py (convert_to_SI, convert_from_SI)"
                ctx.check(same(s, (v + a) * b), key + " to SI", w, "%s" % short(s))
                back = hlp(N, "convert_from_SI", prop, s, u)
                ctx.check(same(back, v), key + " to SI and back", w, "%s" % short(back))
                r = hlp(N, "convert_from_SI", prop, v, u)
                ctx.check(same(r, v / b - a), key + " from SI", w, "%s" % short(r))


def set_units(N, pick):
    for p, u in pick.items():
        N.set(N.nw, p + "_unit", u)


def properties(ctx, P):
    """Specified values and references of a connection."""
    for pick in (PICK, ALT):
        N = NetModel(P)
        c = new_conn(N, P)
        ref = new_conn(N, P, "ref")
        nw = N.nw
        set_units(N, pick)
        f = N.meth(nw, "init_set_properties")
        for k in UNITS:
            d = N.get(c, k)
            N.set(d, "val", sym("c." + k))
            N.set(d, "is_set", True)
            N.set(d, "val_SI", sym("old." + k))
        for k in ("m", "p", "h", "T", "v"):
            d = N.get(c, k + "_ref")
            o = N.fake(k + "_ref", obj=ref, factor=sym("f"), delta=sym("delta." + k), delta_SI=None)
            N.set(d, "ref", o)
            N.set(d, "is_set", True)
        N.set(N.get(c, "fluid"), "val", N.dict([("H2O", num(1))]))
        N.set(nw, "conns", N.dict([("object", N.list(c))]))
        N.set(nw, "init_previous", True)
        N.set(nw, "results", N.dict([]))
        N.set(nw, "specifications", N.dict([]))
        _, exc = N.run(nw, "init_set_properties")
        for k in UNITS:
            key = "specified %s in %s" % (k, pick[k])
            with ctx.guard(key):
                u = pick["T"] if k == "Td_bp" else pick[k]
                a, b = factors(N, k, u)
                got = N.get(N.get(c, k), "val_SI")
                ctx.check(same(got, (sym("c." + k) + a) * b), key, where(f), "SI value is %s" % short(got))
                ctx.check(N.get(N.get(c, k), "unit") == u, key + ": unit of the container", where(f), "is %s" % (N.get(N.get(c, k), "unit"),))
        for k in ("m", "p", "h", "T", "v"):
            key = "difference to the referenced %s in %s" % (k, pick[k])
            with ctx.guard(key):
                o = N.get(N.get(c, k + "_ref"), "ref")
                a, b = factors(N, "Td_bp" if k == "T" else k, pick[k])
                got = N.get(o, "delta_SI")
                ctx.check(same(got, sym("delta." + k) * b), key, where(f), "SI value is %s" % short(got))
        # what is not specified keeps its value
        N = NetModel(P)
        c = new_conn(N, P)
        nw = N.nw
        set_units(N, pick)
        for k in UNITS:
            N.set(N.get(c, k), "val_SI", sym("old." + k))
        N.set(N.get(c, "fluid"), "val", N.dict([("H2O", num(1))]))
        N.set(nw, "conns", N.dict([("object", N.list(c))]))
        N.set(nw, "init_previous", True)
        N.set(nw, "results", N.dict([]))
        N.set(nw, "specifications", N.dict([]))
        N.run(nw, "init_set_properties")
        for k in UNITS:
            got = N.get(N.get(c, k), "val_SI")
            ctx.check(same(got, sym("old." + k)), "unspecified %s is not converted (%s)" % (k, pick[k]), where(f), "SI value becomes %s" % short(got))


def limits(ctx, P):
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "set_attr")
    set_units(N, SI)
    for k in "mph":
        N.set(nw, k + "_range_SI", N.list(sym(k + "lo0"), sym(k + "hi0")))
    N.set(nw, "iterinfo", True)
    kw = {p + "_unit": u for p, u in PICK.items()}
    kw.update({k + "_range": N.list(sym(k + "lo"), sym(k + "hi")) for k in "mp"})
    _, exc = N.run(nw, "set_attr", **kw)
    for p, u in PICK.items():
        ctx.check(N.get(nw, p + "_unit") == u, "unit of %s can be set" % p, where(f), "is %s" % (N.get(nw, p + "_unit"),))
    for k in "mph":
        with ctx.guard("limits of %s" % k):
            a, b = factors(N, k, PICK[k])
            got = N.I.iterate(N.get(nw, k + "_range_SI"), N.st)
            usr = N.I.iterate(N.get(nw, k + "_range"), N.st)
            if k == "h":
                want = [sym("hlo0"), sym("hhi0")]
            else:
                want = [sym(k + "lo") * b, sym(k + "hi") * b]
            for i, nm in enumerate(("lower", "upper")):
                ctx.check(same(got[i], want[i]), "%s limit of %s in SI" % (nm, k), where(f), "is %s" % short(got[i]))
                ctx.check(same(usr[i], want[i] / b), "%s limit of %s in the user's unit" % (nm, k), where(f), "is %s" % short(usr[i]))
    for p in UNITS:
        N = NetModel(P)
        nw = N.nw
        set_units(N, SI)
        for k in "mph":
            N.set(nw, k + "_range_SI", N.list(sym(k + "lo0"), sym(k + "hi0")))
        N.set(nw, "iterinfo", True)
        _, exc = N.run(nw, "set_attr", **{p + "_unit": "parsec"})
        ctx.check([(g, n) for g, n in exc] == [(True, "ValueError")], "unknown unit of %s is rejected" % p, where(f), "raises %s" % exc)
    # defaults
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "set_defaults")
    with ctx.guard("default units"):
        N.run(nw, "set_defaults")
        for p in UNITS:
            ctx.check(N.get(nw, p + "_unit") == SI[p], "default unit of %s" % p, where(f), "is %s" % (N.get(nw, p + "_unit"),))


def starts(ctx, P):
    """Starting values."""
    N = NetModel(P)
    nw = N.nw
    set_units(N, PICK)
    for k in ("p", "h"):
        c = N.fake("c")
        OBJS[c.oid].cls = P.classes["Connection"]
        d = N.new("FluidProperties", val0=sym("nan"), unit=PICK[k])
        N.set(c, k, d)
        f = N.meth(nw, "init_val0")
        for s, t in ((sym("vs"), sym("vt")), (num(0), sym("vt")), (sym("vs"), num(0)), (num(0), num(0))):
            key = "starting value of %s from components (%s, %s)" % (k, s, t)
            with ctx.guard(key):
                N.set(d, "val0", sym("nan"))
                src = new_obj("object", P.classes["Source"], path="so")
                tgt = new_obj("object", P.classes["Sink"], path="si")
                for o, nm, v in ((src, "initialise_source", s), (tgt, "initialise_target", t)):
                    owner = OBJS[o.oid].cls.find(nm)
                    if owner:
                        N.I.intrinsics[owner[0].module.name + "." + owner[0].name + "." + nm] = lambda *a, v=v: v
                N.set(c, "source", src)
                N.set(c, "target", tgt)
                N.run(nw, "init_val0", c, k)
                a, b = factors(N, k, PICK[k])
                if s == num(0) and t == num(0):
                    want = num(100000) if k == "p" else num(1000000)
                elif s == num(0):
                    want = t
                elif t == num(0):
                    want = s
                else:
                    want = (s + t) / num(2)
                got = N.get(d, "val0")
                # zero tests of symbolic values
                got2 = _assume_nonzero(got)
                ctx.check(same(got2, want / b), key, where(f), "is %s" % short(got))


    # the values the iteration starts from
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "init_properties")
    with ctx.guard("first iterate"):
        set_units(N, PICK)
        c = new_conn(N, P)
        for k in "mph":
            d = N.get(c, k)
            for a, v in (("is_var", True), ("val0", sym("start." + k)), ("unit", PICK[k]), ("val_SI", sym("old." + k))):
                N.set(d, a, v)
        d = new_conn(N, P, "d")
        for k in "mph":
            x = N.get(d, k)
            for a, v in (("is_var", False), ("is_set", True), ("val0", sym("start." + k)), ("unit", PICK[k]), ("val_SI", sym("spec." + k))):
                N.set(x, a, v)
        for x in (c, d):
            N.set(x, "good_starting_values", True)
            N.set(N.get(x, "fluid"), "val", N.dict([("H2O", num(1))]))
        N.I.intrinsics["tespy.connections.connection.Connection.build_fluid_data"] = lambda *a: None
        N.I.intrinsics["tespy.networks.network.Network.init_count_connections_parameters"] = lambda *a: None
        N.set(nw, "conns", N.dict([("object", N.list(c, d))]))
        N.set(nw, "init_path", None)
        N.run(nw, "init_properties")
        for k in "mph":
            a, b = factors(N, k, PICK[k])
            got = N.get(N.get(c, k), "val_SI")
            ctx.check(same(got, sym("start." + k) * b), "first iterate of %s" % k, where(f), "is %s" % short(got))
            got = N.get(N.get(d, k), "val_SI")
            ctx.check(same(got, sym("spec." + k)), "specified %s is not overwritten by starting values" % k, where(f), "becomes %s" % short(got))


def _assume_nonzero(v):
    asg = {}
    def walk(x):
        if isinstance(x, dd.DD):
            a = dd.BA(x.var)
            if a.kind == "eq":
                asg[x.var] = False
            walk(x.hi)
            walk(x.lo)
    walk(v)
    return dd.restrict(v, asg)


def files(ctx, P):
    """Values read from saved results."""
    for pick in (PICK, ALT):
        N = NetModel(P)
        nw = N.nw
        f = N.meth(nw, "init_conn_design_params")
        c = new_conn(N, P)
        vals = []
        for k in UNITS:
            vals += [(k, sym("file." + k)), (k + "_unit", pick[k])]
            N.set(N.get(c, k), "unit", SI[k])
            N.set(N.get(c, k), "design", None)
        vals.append(("H2O", sym("file.H2O")))
        N.set(N.get(c, "fluid"), "val", N.dict([("H2O", num(1))]))
        df = N.fake("df", loc=N.dict([("c", N.dict(vals))]), index=N.list("c"))
        N.run(nw, "init_conn_design_params", c, df)
        for k in UNITS:
            if k == "vol":
                continue
            key = "design value of %s read in %s" % (k, pick[k])
            with ctx.guard(key):
                a, b = factors(N, k, pick[k])
                got = N.get(N.get(c, k), "design")
                ctx.check(same(got, (sym("file." + k) + a) * b), key, where(f), "is %s" % short(got))
        f = N.meth(nw, "init_conn_params_from_path")
        N.set(N.get(c, "fluid"), "is_var", N.I.new_set(N.st, []))
        N.run(nw, "init_conn_params_from_path", c, df)
        for k in "mph":
            key = "starting value of %s read in %s" % (k, pick[k])
            with ctx.guard(key):
                a, b = factors(N, k, pick[k])
                d = N.get(c, k)
                u = N.get(d, "unit")
                got = to_si(N, k, N.get(d, "val0"), u)
                ctx.check(same(got, (sym("file." + k) + a) * b), key, where(f), "denotes %s" % short(got))
                ctx.check(u == SI[k], key + ": unit of the connection stays", where(f), "the unit becomes %s" % (u,))


def parameters(ctx, P):
    """Component parameters given in the units of the network."""
    for c in concrete(P):
        with ctx.guard("parameters of %s" % c.name):
            m = Model(P, c)
            ps = [k for k in m.param_names if k == "Tamb" or k.startswith("dp") and k[2:].isdigit()]
            if not ps:
                continue
            ctx.units.add(c.module.rel)
            f = m.meth(m.self, "preprocess")
            for pick in (PICK, ALT):
                mm = Model(P, c, fix={k + ".is_set": True for k in ps} | {"self.%s.is_set" % k: True for k in ps})
                for x in mm.inl + mm.outl:
                    for k in ("p", "T"):
                        mm.setv(mm.attr(x, k), "unit", pick[k])
                for k in ps:
                    mm.setv(mm.param(k), "is_set", True)
                    mm.setv(mm.param(k), "val", sym("user." + k))
                _, st, exc = mm.run(mm.meth(mm.self, "preprocess"), [num(0)], {})
                N = NetModel(P)
                for k in ps:
                    key = "%s.%s in %s" % (c.name, k, pick["T" if k == "Tamb" else "p"])
                    with ctx.guard(key):
                        pr = "T" if k == "Tamb" else "p"
                        a, b = factors(N, pr, pick[pr])
                        got = dd.restrict(mm.I.getattr_(mm.param(k), "val_SI", st, mm.fr), st.assume)
                        ctx.check(same(got, (sym("user." + k) + a) * b), key, where(f), "SI value is %s" % short(got))
            fc = m.meth(m.self, "calc_parameters")
            for pick in (PICK, ALT):
                mm = Model(P, c)
                for x in mm.inl + mm.outl:
                    mm.setv(mm.attr(x, "p"), "unit", pick["p"])
                _, st, exc = mm.run(mm.meth(mm.self, "calc_parameters"), [], {})
                N = NetModel(P)
                for k in ps:
                    if k == "Tamb":
                        continue
                    key = "result %s.%s in %s" % (c.name, k, pick["p"])
                    with ctx.guard(key):
                        a, b = factors(N, "p", pick["p"])
                        si = dd.restrict(mm.I.getattr_(mm.param(k), "val_SI", st, mm.fr), st.assume)
                        got = dd.restrict(mm.I.getattr_(mm.param(k), "val", st, mm.fr), st.assume)
                        ctx.check(same(got, si / b), key, where(fc), "is %s for the SI value %s" % (short(got), short(si)))


def results(ctx, P):
    from ..conn import ConnModel
    for pick in (PICK, ALT):
        cm = ConnModel(P)
        m, c = cm.m, cm.c
        for k in UNITS:
            m.setv(m.attr(c, k), "unit", pick[k])
        f = m.meth(c, "calc_results")
        _, st, exc = m.run(f, [], {})
        N = NetModel(P)
        for k in UNITS:
            key = "result %s in %s" % (k, pick[k])
            with ctx.guard(key):
                o = m.attr(c, k)
                si = dd.restrict(m.I.getattr_(o, "val_SI", st, m.fr), st.assume)
                val = dd.restrict(m.I.getattr_(o, "val", st, m.fr), st.assume)
                a, b = factors(N, k, pick[k])
                want = dd.apply(lambda x: x / b - a if isinstance(x, R) else x, si)
                ctx.check(same(val, want), key, where(f), "is %s for the SI value %s" % (short(val), short(si)))


def ambient(ctx, P):
    """Ambient state of the exergy analysis."""
    ctx.units.add("src/tespy/tools/analyses.py")
    N = NetModel(P)
    ea = new_obj("object", P.classes["ExergyAnalysis"], path="ea")
    f = N.meth(ea, "analyse")
    for pick in (PICK, ALT):
        N = NetModel(P)
        set_units(N, pick)
        ea = new_obj("object", P.classes["ExergyAnalysis"], path="ea")
        N.set(ea, "nw", N.nw)
        N.set(N.nw, "conns", N.dict([("object", N.list())]))
        N.set(N.nw, "comps", N.dict([("object", N.list())]))
        c = N.fake("conn")
        seen = []

        def rec(I, args, kw, st, fr, fv):
            seen.append((args, kw))
            return None
        for q in ("get_physical_exergy", "get_chemical_exergy"):
            N.I.intrinsics["tespy.connections.connection.Connection." + q] = rec
        o = new_obj("object", P.classes["Connection"], path="conn")
        N.set(N.nw, "conns", N.dict([("object", N.list(o))]))
        N.set(o, "label", "conn")
        with ctx.guard("ambient"):
            N.run(ea, "analyse", sym("pamb"), sym("Tamb"))
        got = None
        for a, k in seen[:1]:
            vals = list(a[1:]) + list(k.values())
            got = vals
        key = "ambient state in %s, %s" % (pick["p"], pick["T"])
        ap, bp = factors(N, "p", pick["p"])
        at, bt = factors(N, "T", pick["T"])
        if got is None or len(got) != 2:
            ctx.open(key, "call not found")
            continue
        ctx.check(same(got[0], sym("pamb") * bp), key + ": pressure", where(f), "is %s" % short(got[0]))
        ctx.check(same(got[1], (sym("Tamb") + at) * bt), key + ": temperature", where(f), "is %s" % short(got[1]))
