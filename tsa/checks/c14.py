"""Characteristic lines and maps: evaluation, warnings, defaults."""
import bisect
import json
import os
from fractions import Fraction

from .. import dd
from ..common import program, concrete, where, spec, same, models
from ..configs import configs
from ..dd import literals, NOT, AND, OR
from ..interp import OBJS, Ref, num, sym, MISSING, UNDEF, new_obj, Frame, BoundV, FuncV
from ..model import Model
from ..net import NetModel
from ..poly import R, ZERO, ONE, diff
from ..vfs import VFS
from .c01 import short
from .c04 import expand, ports

EXPL = ("CharLine and CharMap objects are built through their constructors over symbolic knots and values; for every position of "
        "the operating point relative to the knots (each segment, both ends, every knot) the returned value is an exact rational "
        "function that is compared with linear interpolation, with the limiting value or the extension of the last segment "
        "outside; the conditions of the range warnings are compared with 'outside the range'. The shipped data files are "
        "read as tables and linked to the component parameters they are the default of; get_char_expr is value-numbered.")
STUBS = ("pandas", "nparr")
MOD = "tespy.tools.characteristics"


def lt(N, a, b):
    return spec_(N, "a < b", a=a, b=b)


def spec_(N, text, **env):
    N.self = None
    return spec(N, text, env)


def warns(N):
    """records the conditions under which a warning is logged"""
    out = []

    def h(I, a, k, st, fr, fv):
        out.append(st.pc)
        return None
    N.I.intrinsics["tespy.tools.logger.warning"] = h
    return out


def order(N, x, knots, seg):
    """x lies in segment seg (0: below the first knot, len: above the last)"""
    I = N.I
    for a, b in zip(knots, knots[1:]):
        for u, v in ((a, b),):
            I.axioms.update(literals(lt(N, u, v)))
    for n, k in enumerate(knots):
        I.axioms.update(literals(lt(N, k, x) if n < seg else lt(N, x, k)))
        I.axioms.update(literals(NOT(spec_(N, "a == b", a=x, b=k))))


def lin(N, x, x0, x1, y0, y1):
    return y0 + (x - x0) / (x1 - x0) * (y1 - y0)


def fn(P, name):
    m = P.modules[MOD]
    return FuncV(m.defs[name][1], m, None, None)


def lines(ctx, P):
    sizes = (2, 3, 5) if ctx.tier != "thorough" else (2, 3, 4, 5, 7)
    for n in sizes:
        for ext in (False, True):
            for as_list in (True, False):
                for seg in range(n + 1):
                    key = "line of %d knots, %sextrapolated, segment %d, %s" % (n, "" if ext else "not ", seg, "list" if as_list else "array")
                    if not as_list and n != 3:
                        continue
                    with ctx.guard(key):
                        N = NetModel(P)
                        k = [sym("k%d" % i) for i in range(n)]
                        y = [sym("y%d" % i) for i in range(n)]
                        x = sym("X")
                        order(N, x, k, seg)
                        one_line(ctx, N, key, k, y, x, seg, ext, as_list)
            # at the knots: rational numbers
            k = [num(v) for v in (0, 1, 3, 7, 8)[:n]]
            y = [sym("y%d" % i) for i in range(n)]
            for i, x in enumerate(k):
                key = "line of %d knots, %sextrapolated, at knot %d" % (n, "" if ext else "not ", i)
                with ctx.guard(key):
                    N = NetModel(P)
                    w = warns(N)
                    o = build(N, "CharLine", True, x=k, y=y, extrapolate=ext)
                    f = N.meth(o, "evaluate")
                    v, exc = N.run(o, "evaluate", x)
                    ctx.check(same(v, y[i]) if not exc else False, "value of a " + key, where(f), "is %s, expected %s" % (short(v), short(y[i])))
                    N.run(o, "get_domain_errors", x, "c")
                    ctx.check(all(c is False for c in w), "no range warning: " + key, where(N.meth(o, "get_domain_errors")), "warns at a knot")
                    ctx.count("evaluations")


def build(N, cls, as_list, **kw):
    d = {}
    for k, v in kw.items():
        if isinstance(v, list):
            v = nested(N, v)
            if not as_list:
                m = N.P.modules["nparr"]
                v = N.I.call(FuncV(m.defs["array"][1], m, None, None), [v], {}, N.st, N.fr)
        d[k] = v
    return N.new(cls, **d)


def nested(N, v):
    if isinstance(v, list):
        return N.list(*[nested(N, x) for x in v])
    return v


def one_line(ctx, N, key, k, y, x, seg, ext, as_list):
    n = len(k)
    o = build(N, "CharLine", as_list, x=k, y=y, extrapolate=ext)
    f = N.meth(o, "evaluate")
    v, exc = N.run(o, "evaluate", x)
    if seg == 0:
        want = lin(N, x, k[0], k[1], y[0], y[1]) if ext else y[0]
    elif seg == n:
        want = lin(N, x, k[-2], k[-1], y[-2], y[-1]) if ext else y[-1]
    else:
        want = lin(N, x, k[seg - 1], k[seg], y[seg - 1], y[seg])
    v = dd.restrict(v, N.I.axioms)
    ctx.check(not exc and same(v, want), "value of a " + key, where(f), "is %s, expected %s%s" % (short(v), short(want), " raises %s" % exc if exc else ""))
    w = warns(N)
    g = N.meth(o, "get_domain_errors")
    N.run(o, "get_domain_errors", x, "c")
    got = False
    for c in w:
        got = OR(got, c)
    got = dd.restrict(got, N.I.axioms)
    ctx.check(got is (seg in (0, n)), "range warning of a " + key, where(g), "warning is given: %s" % short(got))
    ctx.count("evaluations")


def maps(ctx, P):
    shapes = [(2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 3)] if ctx.tier == "thorough" else [])
    for nx, ny in shapes:
        for sx in range(nx + 1):
            for sy in range(ny + 1):
                key = "map of %d lines with %d points, x segment %d, y segment %d" % (nx, ny, sx, sy)
                with ctx.guard(key):
                    N = NetModel(P)
                    k = [sym("k%d" % i) for i in range(nx)]
                    y = [[sym("y%d%d" % (i, j)) for j in range(ny)] for i in range(nx)]
                    z = [[sym("z%d%d" % (i, j)) for j in range(ny)] for i in range(nx)]
                    X, Y = sym("X"), sym("Y")
                    order(N, X, k, sx)
                    o = build(N, "CharMap", True, x=k, y=y, z=z)
                    f = N.meth(o, "evaluate")
                    if sx in (0, nx):
                        yl, zl = y[min(sx, nx - 1)], z[min(sx, nx - 1)]
                    else:
                        yl = [lin(N, X, k[sx - 1], k[sx], a, b) for a, b in zip(y[sx - 1], y[sx])]
                        zl = [lin(N, X, k[sx - 1], k[sx], a, b) for a, b in zip(z[sx - 1], z[sx])]
                    order(N, Y, yl, sy)
                    v, exc = N.run(o, "evaluate", X, Y)
                    v = dd.restrict(v, N.I.axioms)
                    want = zl[min(sy, ny - 1)] if sy in (0, ny) else lin(N, Y, yl[sy - 1], yl[sy], zl[sy - 1], zl[sy])
                    ctx.check(not exc and same(v, want), "value of a " + key, where(f), "is %s, expected %s" % (short(v), short(want)))
                    w = warns(N)
                    g = N.meth(o, "get_domain_errors")
                    N.run(o, "get_domain_errors", X, Y, "c")
                    w = [dd.restrict(c, N.I.axioms) for c in w]
                    need = (sx in (0, nx)) + (sy in (0, ny))
                    got = sum(c is True for c in w)
                    dec = all(c in (True, False) for c in w)
                    ctx.check((got > 0) == (need > 0) if dec else None, "range warning of a " + key, where(g), "%d warnings, expected %d" % (got, need))
                    ctx.count("evaluations")


def construct(ctx, P):
    for cls, kw, ok in (("CharLine", dict(x=[0, 1, 2], y=[0, 1, 2]), True), ("CharLine", dict(x=[0, 1, 2], y=[0, 1]), False),
                        ("CharLine", dict(x=[0, 1], y=[0, 1, 2]), False), ("CharLine", {}, True), ("CharMap", {}, True),
                        ("CharMap", dict(x=[0, 1], y=[[0, 1], [0, 1]], z=[[0, 1], [0, 1]]), True),
                        ("CharMap", dict(x=[0, 1, 2], y=[[0, 1], [0, 1]], z=[[0, 1], [0, 1]]), False),
                        ("CharMap", dict(x=[0, 1], y=[[0, 1], [0, 1]], z=[[0, 1, 2], [0, 1, 2]]), False),
                        ("CharMap", dict(x=[0, 1], y=[[0, 1, 2], [0, 1, 2]], z=[[0, 1], [0, 1]]), False)):
        key = "%s of %s is %s" % (cls, kw or "no arguments", "accepted" if ok else "refused with ValueError")
        with ctx.guard(key):
            N = NetModel(P)

            def conv(v):
                return [conv(x) for x in v] if isinstance(v, list) else num(v)
            fr0 = N.fr.raises[:]
            del N.fr.raises[:]
            o = build(N, cls, True, **{k: conv(v) for k, v in kw.items()})
            exc = [n for pc, n, _ in N.fr.raises if pc is not False]
            N.fr.raises[:] = fr0
            w = where(FuncV(P.classes[cls].methods["__init__"], P.classes[cls].module, P.classes[cls], None)) if hasattr(P.classes[cls], "methods") else cls
            ctx.check((not exc) if ok else exc == ["ValueError"], key, w, "raises %s" % (exc or "nothing"))
            if ok and not exc and not kw and cls == "CharLine":
                v, e = N.run(o, "evaluate", sym("anything"))
                ctx.check(same(v, num(1)), "the default line is one everywhere", where(N.meth(o, "evaluate")), "is %s" % short(v))
            if ok and kw:
                d = N.run(o, "_serialize")[0]
                for k, v in kw.items():
                    lst = N.I.dict_get(N.st, d, k)
                    got = plain(N, lst)
                    ctx.check(got == v, "%s of %s is exported unchanged" % (k, cls), where(N.meth(o, "_serialize")), "exports %s" % (got,))


def plain(N, v):
    if isinstance(v, Ref) and OBJS[v.oid].kind == "list":
        return [plain(N, x) for x in N.st.heap[(v.oid, "#")]]
    if isinstance(v, R) and v.is_const():
        return int(v.const_val()) if v.const_val() == int(v.const_val()) else v.const_val()
    return v


def datafile(P, name):
    d = os.path.join(P.root if hasattr(P, "root") else os.environ.get("VERIF_REPO", "/repo") + "/src/tespy", "data", name)
    return json.load(open(d)), "src/tespy/data/" + name


def value(x, y, v):
    i = bisect.bisect_left(x, v)
    if i == len(x):
        return y[-1]
    if i == 0:
        return y[0]
    return y[i - 1] + (v - x[i - 1]) / (x[i] - x[i - 1]) * (y[i] - y[i - 1])


def increasing(x):
    return all(a < b for a, b in zip(x, x[1:]))


def data(ctx, P):
    """the shipped characteristics"""
    from fractions import Fraction
    lin_, f1 = datafile(P, "char_lines.json")
    map_, f2 = datafile(P, "char_maps.json")
    ctx.units.update((f1, f2))
    users = {}
    for c in concrete(P):
        with ctx.guard("component name of " + c.name):
            m = Model(P, c, **next(iter(configs(c)))[1])
            nm = m.run(m.meth(m.self, "component"), [], {})[0]
            if isinstance(nm, str):
                users.setdefault(nm, []).append((c, m))
    for comp, pars in list(lin_.items()) + list(map_.items()):
        for par, fs in pars.items():
            is_map = comp in map_ and par in map_[comp]
            file = f2 if is_map else f1
            cs = users.get(comp, [])
            has = [c for c, m in cs if has_param(m, par)]
            key = "default of parameter %s of a %s" % (par, comp)
            if cs:
                ctx.check(bool(has), "the shipped %s belongs to a parameter of a component" % key, file, "no component class named '%s' has a parameter '%s'" % (comp, par))
            else:
                ctx.check(False if users else None, "the shipped %s belongs to a component" % key, file, "no component class is named '%s'" % comp)
            for nm, t in fs.items():
                k2 = "%s, %s" % (key, nm)
                ctx.count("shipped characteristics")
                if is_map:
                    shp = len(t["x"]) == len(t["y"]) == len(t["z"]) and all(len(a) == len(b) == len(t["y"][0]) for a, b in zip(t["y"], t["z"]))
                    ctx.check(shp and increasing(t["x"]) and all(r == sorted(r) for r in t["y"]), k2 + ": knots increase, sizes agree", file, "malformed map")
                    fr = lambda r: [Fraction(str(a)) for a in r]
                    if shp:
                        ys = [value(fr(t["x"]), col, Fraction(1)) for col in zip(*map(fr, t["y"]))]
                        zs = [value(fr(t["x"]), col, Fraction(1)) for col in zip(*map(fr, t["z"]))]
                        v = value(ys, zs, Fraction(1))
                        ctx.check(v == 1, k2 + ": the factor at the design point is one", file, "factor is %s" % float(v))
                else:
                    ctx.check(len(t["x"]) == len(t["y"]) and increasing(t["x"]), k2 + ": knots increase, sizes agree", file, "malformed line")
                    if comp != "combustion engine":
                        v = value([Fraction(str(a)) for a in t["x"]], [Fraction(str(a)) for a in t["y"]], Fraction(1))
                        ctx.check(v == 1, k2 + ": the factor at the design point is one", file, "factor is %s" % float(v))


def has_param(m, par):
    I = m.I
    d = m.attr(m.self, "parameters")
    return any(I_key(k) == par for k in I.dict_keys(m.st, d))


def I_key(k):
    from ..interp import _unhk
    return _unhk(k)


def loaders(ctx, P):
    doc = {"comp": {"par": {"DEFAULT": {"x": [num(0), num(1)], "y": [sym("da"), sym("db")]}, "OTHER": {"x": [num(0), num(2)], "y": [sym("oa"), sym("ob")]}},
                    "par2": {"DEFAULT": {"x": [num(0), num(3)], "y": [sym("pa"), sym("pb")]}}}}
    mdoc = {"comp": {"par": {"DEFAULT": {"x": [num(0), num(1)], "y": [[sym("ma"), sym("mb")]] * 2, "z": [[sym("mc"), sym("md")]] * 2}}}}
    cdoc = {"mine": {"x": [num(0), num(5)], "y": [sym("ca"), sym("cb")]}, "second": {"x": [num(0), num(6)], "y": [sym("ea"), sym("eb")]}}
    cmdoc = {"mine": {"x": [num(0), num(5)], "y": [[sym("na"), sym("nb")]] * 2, "z": [[sym("nc"), sym("nd")]] * 2}}

    def setup():
        N = NetModel(P)
        V = VFS(N.I, N.st)
        dp = N.I.eval(__import__("ast").parse("__datapath__", mode="eval").body, N.st, frame(P))
        N.I.intrinsics["tespy.tools.helpers.extend_basic_path"] = lambda I, a, k, st, fr, fv: "<home>/" + a[0]
        for nm, d in (("char_lines.json", doc), ("char_maps.json", mdoc)):
            V.put(N.st, V.join(N.I, [dp, nm], {}, N.st, None), d)
        for nm, d in (("char_lines.json", cdoc), ("char_maps.json", cmdoc)):
            V.put(N.st, "<home>/data/" + nm, d)
        return N, V

    from ..interp import ClassV
    for f, args, cls, want in (
            ("load_default_char", ["comp", "par", "DEFAULT"], "CharLine", doc["comp"]["par"]["DEFAULT"]),
            ("load_default_char", ["comp", "par", "OTHER"], "CharLine", doc["comp"]["par"]["OTHER"]),
            ("load_default_char", ["comp", "par2", "DEFAULT"], "CharLine", doc["comp"]["par2"]["DEFAULT"]),
            ("load_default_char", ["comp", "par", "DEFAULT"], "CharMap", mdoc["comp"]["par"]["DEFAULT"]),
            ("load_custom_char", ["mine"], "CharLine", cdoc["mine"]), ("load_custom_char", ["second"], "CharLine", cdoc["second"]),
            ("load_custom_char", ["mine"], "CharMap", cmdoc["mine"])):
        key = "%s(%s) returns the %s of that name" % (f, ", ".join(args), cls)
        with ctx.guard(key):
            N, V = setup()
            fv = fn(P, f)
            fr = Frame(N.fr.module, None, "<top>", None)
            fr.node = None
            o = N.I.call(fv, args + [class_value(N, cls)], {}, N.st, fr)
            exc = [n for pc, n, _ in fr.raises if pc is not False]
            ok = isinstance(o, Ref) and OBJS[o.oid].cls is not None and OBJS[o.oid].cls.name == cls and not exc
            got = {}
            if ok:
                d = N.run(o, "_serialize")[0]
                got = {k: plain(N, N.I.dict_get(N.st, d, k)) for k in want}
                ok = got == {k: pl(v) for k, v in want.items()}
            ctx.check(ok, key, where(fv), "returns %s %s%s" % (o, got, ", raises %s" % exc if exc else ""))


def pl(v):
    if isinstance(v, list):
        return [pl(x) for x in v]
    if isinstance(v, R) and v.is_const():
        return int(v.const_val())
    return v


def frame(P):
    fr = Frame(P.modules[MOD], None, "<top>", None)
    fr.node = None
    return fr


def class_value(N, name):
    return N.I.eval(__import__("ast").parse(name, mode="eval").body, N.st, frame(N.P))


EXPR = {("m", "rel"): "m[i] / self.inl[{i}].m.design", ("m_out", "rel"): "m[o] / self.outl[{o}].m.design",
        ("v", "rel"): "m[i] * v[i] / self.inl[{i}].v.design",
        ("pr", "rel"): "(p[o] * self.inl[{i}].p.design) / (p[i] * self.outl[{o}].p.design)",
        ("m", "abs"): "m[i]", ("m_out", "abs"): "m[o]", ("v", "abs"): "m[i] * v[i]", ("pr", "abs"): "p[o] / p[i]"}


def expressions(ctx, P):
    for c in concrete(P):
        ns = {x.name for x in c.mro if not isinstance(x, str)}
        for tag, kw in list(configs(c))[:1]:
            m = None
            with ctx.guard("operating point of " + c.name):
                m = Model(P, c, **kw)
            if m is None or not m.inl or not m.outl:
                continue
            f = m.meth(m.self, "get_char_expr")
            if isinstance(f, BoundV) and c.name not in ("Turbine", "HeatExchanger", "WaterElectrolyzer") and f.k[0].k[2].name == "Component":
                continue
            for (par, typ), text in EXPR.items():
                for i in range(len(m.inl)):
                    for o in range(len(m.outl)):
                        key = "%s.get_char_expr(%s, %s, %d, %d)" % (c.name, par, typ, i, o)
                        with ctx.guard(key):
                            v, _, exc = m.run(f, [par], {"type": typ, "inconn": num(i), "outconn": num(o)})
                            env = {"i": m.inl[i], "o": m.outl[o]}
                            want = spec(m, expand(text.format(i=i, o=o)), env)
                            ctx.check(not exc and same(v, want), key, where(f), "is %s, documented is %s" % (short(v), short(want)))
                            ctx.count("operating point expressions")
            with ctx.guard("unknown parameter of %s" % c.name):
                v, _, exc = m.run(f, ["T"], {"type": "rel"})
                ctx.check([e[1] if isinstance(e, tuple) else e for e in exc] == ["ValueError"] or any("ValueError" in str(e) for e in exc),
                          "%s.get_char_expr of an unknown parameter is refused" % c.name, where(f), "raises %s" % (exc,))


def choice(ctx, P):
    """which characteristic a component uses"""
    seen = 0
    for c in concrete(P):
        with ctx.guard("default characteristics of " + c.name):
            m = Model(P, c, **next(iter(configs(c)))[1])
            I = m.I
            asked = []

            def ldc(I, a, k, st, fr, fv):
                asked.append((a[0], a[1], a[2], a[3]))
                return R.of(__import__("tsa.poly", fromlist=["atom"]).atom("fn", "default", a[0], a[1], a[2]))
            I.intrinsics[MOD + ".load_default_char"] = ldc
            comp = m.run(m.meth(m.self, "component"), [], {})[0]
            pars = m.attr(m.self, "parameters")
            chars = []
            from ..interp import _unhk
            for k in I.dict_keys(m.st, pars):
                k = _unhk(k)
                o = m.attr(m.self, k)
                cl = OBJS[o.oid].cls
                if cl is not None and cl.name in ("ComponentCharacteristics", "ComponentCharacteristicMaps"):
                    chars.append((k, o, cl.name))
            if not chars:
                continue
            for user in (False, True):
                st = m.st.copy()
                given = {k: new_obj("object", P.classes["CharMap" if kind.endswith("Maps") else "CharLine"], path="user_" + k) for k, o, kind in chars}
                for k, o, _ in chars:
                    st.heap[(o.oid, "a", "char_func")] = given[k] if user else None
                f = m.meth(m.self, "preprocess")
                saved = I.intrinsics.pop("tespy.components.component.Component.preprocess", None)
                fr = Frame(m.fr.module, None, "<top>", None)
                fr.node = None
                I.call(f, [num(0)], {}, st, fr)
                if saved:
                    I.intrinsics["tespy.components.component.Component.preprocess"] = saved
                for k, o, kind in chars:
                    v = I.getattr_(o, "char_func", st, m.fr)
                    want = given[k] if user else R.of(__import__("tsa.poly", fromlist=["atom"]).atom("fn", "default", comp, k, "DEFAULT"))
                    key = "%s.%s uses the %s" % (c.name, k, "characteristic the user gave" if user else "default of this component and parameter")
                    ctx.check(same(v, want), key, where(f), "uses %s" % short(v))
                    ctx.count("characteristics of components")
                    seen += 1
    ctx.floor("characteristics of components", seen, 20)


def bounds(ctx, P):
    """check_parameter_bounds hands the operating point of every
    characteristic in use to its range check"""
    for name, par in (("Turbine", "eta_s_char"), ("Valve", "dp_char"), ("WaterElectrolyzer", "eta_char"), ("HeatExchanger", "kA_char1"),
                      ("HeatExchanger", "kA_char2"), ("Pump", "flow_char")):
        c = P.classes[name]
        key = "%s.check_parameter_bounds checks the range of %s exactly if it is used" % (name, par)
        with ctx.guard(key):
            m = Model(P, c, **next(iter(configs(c)))[1])
            I, st = m.I, m.st
            pars = m.attr(m.self, "parameters")
            grp = None
            for k in I.dict_keys(st, pars):
                o = m.attr(m.self, I_key(k))
                if OBJS[o.oid].cls.name == "GroupedComponentCharacteristics":
                    grp = o
                if I_key(k) == par:
                    chars = o
                cn = OBJS[o.oid].cls.name
                if cn.endswith("Characteristics"):
                    st.heap[(o.oid, "a", "is_set")] = R_bool(m, I_key(k))
            ch = new_obj("object", P.classes["CharLine"], path="ch")
            st.heap[(chars.oid, "a", "char_func")] = ch
            seen = []

            def rec(I, a, k, st, fr, fv):
                if a[0] is ch:
                    seen.append((st.pc, a[1]))
                return None
            I.intrinsics[MOD + ".CharLine.get_domain_errors"] = rec
            f = m.meth(m.self, "check_parameter_bounds")
            m.run(f, [], {})
            used = R_bool(m, par)
            if grp is not None:
                nm = [I_key(k) for k in I.dict_keys(st, pars) if m.attr(m.self, I_key(k)) is grp][0]
                used = OR(used, R_bool(m, nm))
            cond = False
            for c_, v in seen:
                cond = OR(cond, c_)
            e = m.attr(chars, "char_params")
            kw = {I_key(k): I.dict_get_hk(st, e, k) for k in I.dict_keys(st, e)}
            want, _, _ = m.run(m.meth(m.self, "get_char_expr"), [m.attr(chars, "param")], kw)
            ok = None if not isinstance(cond, (bool, dd.DD)) else (cond is used or dd.leq(cond, used)) and all(same(v, want) is not False for _, v in seen)
            ctx.check(ok, key, where(f), "range check of %s under %s, used under %s" % ([short(v) for _, v in seen], short(cond), short(used)))


def operating_points(ctx, P):
    """the equations evaluate a characteristic at the operating point its
    param and char_params select"""
    seen = 0
    for c in concrete(P):
        m = None
        with ctx.guard("operating points of " + c.name):
            m = Model(P, c, **next(iter(configs(c)))[1])
        if m is None:
            continue
        pars = m.attr(m.self, "parameters")
        names = {}
        for k in m.I.dict_keys(m.st, pars):
            o = m.attr(m.self, I_key(k))
            if OBJS[o.oid].cls is not None and OBJS[o.oid].cls.name == "ComponentCharacteristics" and isinstance(m.attr(o, "param"), str):
                names[I_key(k)] = o
        if not names or c.find("calc_ti") is not None and "Q1_char" in names:
            continue
        for k in m.I.dict_keys(m.st, pars):
            o = m.attr(m.self, I_key(k))
            cn = OBJS[o.oid].cls.name if OBJS[o.oid].cls is not None else ""
            f = m.attr(o, "func") if cn.endswith("Characteristics") else None
            if f is None:
                continue
            chars = [I_key(k)] if I_key(k) in names else [x for x in plain(m, m.attr(o, "elements")) if x in names]
            for ty in ("rel", "abs"):
                key = "%s.%s is evaluated at the operating point of type %s that was asked for" % (c.name, I_key(k), ty)
                with ctx.guard(key):
                    st0 = m.st.copy()
                    for x in chars:
                        m.st.heap[(names[x].oid, "a", "char_params")] = m.I.new_dict(m.st, [("type", ty), ("inconn", num(0)), ("outconn", num(0))])
                        m.st.heap[(names[x].oid, "a", "param")] = "m"
                    calls = []

                    def rec(I, a, kw, st, fr, fv):
                        names_ = ("param", "type", "inconn", "outconn")
                        d = dict(zip(names_, a[1:] if isinstance(a[0], Ref) else a))
                        d.update(kw)
                        calls.append(d)
                        return sym("op")
                    m.I.intrinsics["tespy.components.component.Component.get_char_expr"] = rec
                    m.run(f, [], {})
                    m.I.intrinsics.pop("tespy.components.component.Component.get_char_expr")
                    m.st.heap.update(st0.heap)
                    got = [(d.get("param"), d.get("type", "rel")) for d in calls]
                    ctx.check(len(calls) >= len(chars) and all(g == ("m", ty) for g in got), key, where(f), "operating point asked for: %s" % (got,))
                    seen += 1
    ctx.floor("characteristic equations", seen, 16)


def cells(N, st, v):
    """numbers stored in a (nested) array"""
    if isinstance(v, Ref) and OBJS[v.oid].cls is not None and OBJS[v.oid].cls.name == "ndarray":
        v = N.I.getattr_(v, "_v", st, N.fr)
    if isinstance(v, Ref):
        it = N.I.iterate(v, st)
        return None if it is None else [cells(N, st, x) for x in it]
    return v


def interpolate(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]):
        if x <= b:
            return c + (x - a) / (b - a) * (d - c)
    return ys[-1]


def turbo(ctx, P):
    """equations and range checks of a compressor map at every position of
    the operating point; the map itself stays as it is"""
    F = Fraction
    kx = [F(9, 10), F(1), F(11, 10)]
    ky = [[F(1, 2), F(1), F(3, 2)], [F(6, 10), F(12, 10), F(18, 10)], [F(7, 10), F(14, 10), F(2)]]
    kz = {"char_map_pr": [[F(12, 10), F(1), F(8, 10)], [F(14, 10), F(11, 10), F(7, 10)], [F(15, 10), F(13, 10), F(9, 10)]],
          "char_map_eta_s": [[F(8, 10), F(1), F(9, 10)], [F(7, 10), F(11, 10), F(6, 10)], [F(5, 10), F(95, 100), F(75, 100)]]}
    spots = [("below the map", F(8, 10)), ("at the first line", F(9, 10)), ("within the map", F(96, 100)), ("above the map", F(12, 10))]
    for where_, x in spots:
        for y in (F(4, 10), F(9, 10), F(5, 2)):
            for igva in (F(0), F(10), F(-20)):
                key0 = "compressor map, operating point %s, y = %s, guide vanes at %s" % (where_, float(y), igva)
                with ctx.guard(key0):
                    m = Model(P, P.classes["Compressor"])
                    N = NetModel(P, m)
                    I = m.I
                    i, o = m.inl[0], m.outl[0]
                    T = F(400)
                    m.setv(m.attr(i, "T"), "design", num(x * x * T))
                    m.setv(m.attr(i, "T"), "val_SI", num(T))
                    I.intrinsics["tespy.connections.connection.Connection.calc_T"] = lambda *a: num(T)
                    I.intrinsics["tespy.tools.fluid_properties.functions.T_mix_ph"] = lambda *a: num(T)
                    pd, p, md = F(2), F(3), F(5)
                    m.setv(m.attr(i, "p"), "design", num(pd))
                    m.setv(m.attr(i, "p"), "val_SI", num(p))
                    m.setv(m.attr(i, "m"), "design", num(md))
                    m.setv(m.attr(i, "m"), "val_SI", num(y * md * p * x / pd))
                    m.setv(m.param("igva"), "val", num(igva))
                    maps_ = {}
                    for nm in kz:
                        mp = build(N, "CharMap", False, x=[num(q) for q in kx], y=[[num(q) for q in r] for r in ky], z=[[num(q) for q in r] for r in kz[nm]])
                        maps_[nm] = mp
                        m.setv(m.param(nm), "char_func", mp)
                        m.setv(m.param(nm), "is_set", True)
                    snap = {nm: [cells(N, m.st, I.getattr_(mp, a, m.st, m.fr)) for a in "xyz"] for nm, mp in maps_.items()}
                    g = 1 - igva / 100
                    for nm, fac in (("char_map_pr", g), ("char_map_eta_s", 1 - igva ** 2 / 10000)):
                        cols = list(zip(*ky)), list(zip(*kz[nm]))
                        ya = [interpolate(x, kx, c) * g for c in cols[0]]
                        za = [interpolate(x, kx, c) * fac for c in cols[1]]
                        want = interpolate(y, ya, za)
                        f = [e[1] for e in m.equations() if e[0] in (nm, nm + "_group")]
                        if not f:
                            ctx.violate(key0, "src/tespy/components/turbomachinery/compressor.py (class Compressor)", "there is no equation for " + nm)
                            continue
                        v, st, exc = m.run(f[0], [], {})
                        if nm == "char_map_pr":
                            r = spec(m, "o.p.val_SI / i.p.val_SI - w * self.pr.design", {"o": o, "i": i, "w": num(want)})
                        else:
                            r = spec(m, "(isentropic(i.p.val_SI, i.h.val_SI, o.p.val_SI, i.fluid_data, i.mixing_rule, T0=None) - i.h.val_SI) / (o.h.val_SI - i.h.val_SI) - w * self.eta_s.design", {"o": o, "i": i, "w": num(want)})
                            a, b = (dd.restrict(z, st.assume) for z in (v, r))
                            # the equation may be scaled by the enthalpy difference
                            d = None
                            if isinstance(a, R):
                                e = diff(a, lambda z: ONE if z is m.attr(m.param("eta_s"), "design").as_atom() else ZERO)
                                d = -e / spec(m, "(o.h.val_SI - i.h.val_SI)", {"o": o, "i": i})
                            ctx.check(None if d is None else d == num(want) or -e == num(want) or e == num(want), "%s: value of %s" % (key0, nm), where(f[0]), "factor of the design value is %s, the map gives %s" % (short(e) if d is not None else short(a), want))
                            r = None
                        if r is not None:
                            ctx.check(same(dd.restrict(v, st.assume), r, factor=True), "%s: value of %s" % (key0, nm), where(f[0]), "residual %s, the map gives %s" % (short(v), want))
                        for mn, mp in maps_.items():
                            now = [cells(N, st, I.getattr_(mp, a, st, m.fr)) for a in "xyz"]
                            ctx.check(now == snap[mn], "%s: equation of %s leaves %s as it is" % (key0, nm, mn), where(f[0]), "the evaluation changes the data of the map")
                        ctx.count("evaluations of compressor maps")
                    w = warns(N)
                    f = m.meth(m.self, "check_parameter_bounds")
                    _, st, exc = m.run(f, [], {})
                    for mn, mp in maps_.items():
                        now = [cells(N, st, I.getattr_(mp, a, st, m.fr)) for a in "xyz"]
                        ctx.check(now == snap[mn], "%s: range check leaves %s as it is" % (key0, mn), where(f), "the check changes the data of the map")
    ctx.floor("evaluations of compressor maps", ctx.counts.get("evaluations of compressor maps", 0), 60)


def engine_range(ctx, P):
    """characteristics of the combustion engine are checked at the relative power"""
    c = P.classes["CombustionEngine"]
    for par in ("tiP_char", "Q1_char", "Q2_char", "Qloss_char"):
        key = "CombustionEngine.check_parameter_bounds checks the range of %s at the relative power" % par
        with ctx.guard(key):
            m = Model(P, c)
            ch = new_obj("object", P.classes["CharLine"], path="ch")
            for q in ("tiP_char", "Q1_char", "Q2_char", "Qloss_char"):
                m.setv(m.param(q), "char_func", ch if q == par else new_obj("object", P.classes["CharLine"], path="other"))
            m.setv(m.param("P"), "val", num(30))
            m.setv(m.param("P"), "design", num(40))
            seen = []

            def rec(I, a, k, st, fr, fv):
                if a[0] is ch:
                    seen.append((st.pc, a[1]))
                return None
            m.I.intrinsics[MOD + ".CharLine.get_domain_errors"] = rec
            f = m.meth(m.self, "check_parameter_bounds")
            m.run(f, [], {})
            ctx.check(bool(seen) and all(same(v, num(Fraction(3, 4))) is True for _, v in seen), key, where(f), "checked at %s" % [short(v) for _, v in seen])


def R_bool(m, name):
    return m.I.truth(sym("set_" + name), m.st)


def run(ctx):
    ctx.rule = "characteristic value equals piecewise linear interpolation; warnings exactly outside the range; defaults as shipped"
    P = program(STUBS)
    ctx.units.update(P.modules[m].rel for m in (MOD, "tespy.components.component"))
    lines(ctx, P)
    maps(ctx, P)
    construct(ctx, P)
    loaders(ctx, P)
    data(ctx, P)
    expressions(ctx, P)
    choice(ctx, P)
    bounds(ctx, P)
    operating_points(ctx, P)
    turbo(ctx, P)
    engine_range(ctx, P)
    return EXPL
