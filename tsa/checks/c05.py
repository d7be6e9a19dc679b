"""Reported component and connection results agree with the definitions the
same parameters impose when they are specified."""
import re

from .. import dd, mbhe
from ..configs import shared, configs
from ..common import program, models, where, spec
from ..conn import ConnModel
from ..interp import OBJS, num, sym
from ..model import undecided, Model
from ..poly import R, diff, ZERO, ONE
from .c01 import short
from . import c04
from .c04 import expand, ports, fuel_terms, TDLOG, HXL, HXU, CDU, FEAS, CFEAS, U1, U2, E0

EXPL = ("calc_parameters of every component class is value-numbered (temperatures, volumes and entropies of the ports replaced "
        "by the property calls that define them) and each stored result is substituted into the definition of the parameter, "
        "which must vanish; calc_results of a connection is compared with the property definitions likewise.")

# results without an equation of their own: value, domain
EXTRA = {
    "HeatExchanger": {"td_log": (TDLOG.format(l=HXL, u=HXU), FEAS)},
    "Condenser": {"td_log": (TDLOG.format(l=HXL, u=CDU), CFEAS)},
    "SolarCollector": {"Q_loss": ("m[i] * (h[o] - h[i]) - self.E.val * self.A.val", "self.energy_group.is_set")},
    "ParabolicTrough": {"Q_loss": ("m[i] * (h[o] - h[i]) - self.E.val * self.A.val", "self.energy_group.is_set")},
    "DiabaticCombustionChamber": {"Q_loss": ("-(TI + NETH)", None)},
    "SimpleHeatExchanger": {
        "kA": ("abs(m[i] * (h[o] - h[i]) / ((({a}) - ({b})) / math.log(({a}) / ({b}))))".format(a=U1, b=U2),
               "self.Tamb.is_set and %s > %s and %s / %s > 0" % (U1, U2, U1, U2)),
        "kA ": ("abs(m[i] * (h[o] - h[i]) / ((({b}) - ({a})) / math.log(({b}) / ({a}))))".format(a=U1, b=U2),
                "self.Tamb.is_set and not %s > %s and %s / %s > 0 and %s != %s" % (U1, U2, U1, U2, U1, U2)),
    },
    "CycleCloser": {"mass_deviation": ("abs(m[i] - m[o])", None), "fluid_deviation": ("CLOSER", None)},
    "CombustionEngine": {
        "P": ("-TI / self.tiP_char.char_func.evaluate(%s)" % c04.ENG_X, None),
        "Qloss": ("-TI * self.Qloss_char.char_func.evaluate({x}) / self.tiP_char.char_func.evaluate({x})".format(
            x=c04.ENG_X), None)},
}
# equations whose parameter carries another name
PARAM = {"darcy_group": None, "hw_group": None, "kA_group": None, "kA_char_group": None, "energy_group": None,
         "subcooling": None, "cone": None}
ZDOM = "abs(m[%s]) > 1e-4"


def by_mro(table, cls):
    out = {}
    for c in reversed(cls.mro):
        nm = getattr(c, "name", None)
        d = table.get(nm, {})
        for k in d:
            base = k.strip()
            for q in [q for q in out if q.strip() == base and out[q][1] != nm]:
                del out[q]
            s = d[k]
            out[k] = (s if isinstance(s, tuple) else (s, None), nm)
    return out


def results_of(cls):
    """param -> list of (kind, text, domain)"""
    out = {}
    for k, ((text, dom), nm) in by_mro(c04.SPEC, cls).items():
        name = k.strip()
        if name in PARAM or name.endswith("_char") or name.endswith("_group") or name.endswith("_constraints"):
            continue
        if name.startswith("zeta"):
            z = re.search(r"abs\(m\[(\w+)\]\)", text).group(1)
            text = text.split(" else ", 1)[1]
            dom = ZDOM % z
        out[k] = ("residual", text, dom)
    for k, ((text, dom), nm) in by_mro(EXTRA, cls).items():
        out[k] = ("value", text, dom)
    return out


def post_state(m):
    """Derived state of the ports as calc_results leaves it."""
    for c in list(m.inl) + list(m.outl):
        for a, f in (("T", "T[c]"), ("vol", "v[c]"), ("s", "s[c]")):
            v = spec(m, expand(f), {"c": c})
            o = m.attr(c, a)
            m.st.heap[(o.oid, "a", "val_SI")] = v


def run(ctx):
    ctx.rule = "stored result satisfies the definition of its parameter"
    P = program()
    n = 0
    for c, tag, m in models(ctx, P, thorough=ctx.tier == "thorough", more=(shared,)):
        want = results_of(c)
        if not want:
            continue
        key0 = c.name + (" [%s]" % tag if tag else "")
        with ctx.guard(key0 + " calc_parameters"):
            f = m.meth(m.self, "calc_parameters")
            env = ports(m)
            post_state(m)
            _, st, exc = m.run(f, [], {})
            for k, (kind, text, dom) in want.items():
                name = k.strip()
                key = "%s result %s%s" % (key0, name, " (%s)" % dom if dom else "")
                with ctx.guard(key):
                    eqs = {e[0] for e in m.equations()}
                    if kind == "residual" and name not in eqs:
                        continue
                    obj = m.I.getattr_(m.self, name, st, m.fr)
                    at = "val_SI" if name.startswith("dp") else "val"
                    val = m.I.getattr_(obj, at, st, m.fr)
                    val = dd.restrict(val, st.assume)
                    if val is spec(m, "self.%s.%s" % (name, at), env) or val == spec(m, "self.%s.%s" % (name, at), env):
                        if name in ("P", "Qloss", "subcooling") or name not in eqs:
                            continue       # a variable of the system or an input: nothing is computed
                        ctx.violate(key, where(f), "the result is not calculated")
                        continue
                    text = re.sub(r"\bE0\((\w+)\)", E0, text)
                    if text == "CLOSER":
                        text = "math.sqrt(%s)" % " + ".join("(self.inl[0].fluid.val[%r] - self.outl[0].fluid.val[%r]) ** 2" % (z, z) for z in m.fluids)
                    text = expand(fuel_terms(m, text))
                    g = spec(m, expand(dom), env) if dom else True
                    if kind == "value":
                        w = spec(m, text, env, st if name == 'Qloss' else None)
                    else:
                        r = spec(m, text, env)
                        pa = spec(m, "self.%s.%s" % (name, at), env).as_atom()

                        def imp(e):
                            if not isinstance(e, R):
                                return e
                            d = diff(e, lambda z: ONE if z is pa else ZERO)
                            if d.is_zero() or pa in set(d.atoms()):
                                raise ValueError("definition not linear in " + name)
                            return R.of(pa) - e / d
                        w = dd.apply(imp, r)

                    def leaf(q, a, b):
                        if q is False:
                            return True
                        if q is not True or undecided(a) or undecided(b):
                            return "?"
                        if isinstance(a, R) and isinstance(b, R):
                            return a == b
                        return "?" if not isinstance(a, R) and not isinstance(b, R) else False
                    res = dd.apply(leaf, g, val, w)
                    ls = {l for _, l in dd.leaves(res)}
                    n += 1
                    if False in ls:
                        ctx.violate(key, where(f), "stored result is %s, its definition gives %s" % (short(val), short(w)))
                    elif "?" in ls:
                        ctx.open(key, short(val))
                    else:
                        ctx.ok(key)
    mbhe.obligations(ctx, False)
    connection_results(ctx, P)
    plotting(ctx, P)
    with ctx.guard("effectiveness out of range"):
        out_of_range(ctx, P)
    with ctx.guard("equal temperature differences"):
        equal_differences(ctx, P)
    ctx.count("component results", n)
    ctx.floor("component results", n, 60)
    return EXPL


def out_of_range(ctx, P):
    """A heat exchanger side whose property model does not reach the inlet
    temperature of the other side has no effectiveness: nothing is reported,
    the other side keeps its own."""
    fn = "tespy.tools.fluid_properties.functions.h_mix_pT"
    for c in P.subclasses("HeatExchanger"):
        for bad in ((0,), (1,), (0, 1)):
            m = Model(P, c, **next(iter(configs(c)))[1])
            post_state(m)
            env = ports(m)
            if not {"eff_hot", "eff_cold"} <= set(m.param_names):
                continue
            hi = [m.attr(m.inl[k], "p", "val_SI") for k in (0, 1)] + [m.attr(m.outl[k], "p", "val_SI") for k in (0, 1)]

            def h(I, a, kw, st, fr, fv):
                for side in bad:
                    if a and any(a[0] == x for x in (hi[side], hi[side + 2])):
                        fr.raises.append((st.pc, "ValueError", st.copy()))
                        st.pc = False
                        return None
                return sym("h_max")
            m.I.intrinsics[fn] = h
            f = m.meth(m.self, "calc_parameters")
            _, st, exc = m.run(f, [], {})
            for side, name in ((0, "eff_hot"), (1, "eff_cold")):
                v = m.I.getattr_(m.I.getattr_(m.self, name, st, m.fr), "val", st, m.fr)
                v = dd.restrict(v, st.assume)
                key = "%s result %s, %s side out of range" % (c.name, name, " and ".join(("hot", "cold")[b] for b in bad))
                if side in bad:
                    ls = {_same(l, sym("nan")) for _, l in dd.leaves(v)}
                    ctx.check(False if False in ls else None if None in ls else True, key, where(f), "is %s, expected nan" % short(v))
                else:
                    old = spec(m, "self.%s.val" % name, env)
                    ls = {_same(l, sym("nan")) or _same(l, old) for _, l in dd.leaves(v)}
                    ctx.check(False if True in ls else None if None in ls else True, key, where(f), "is %s" % short(v))


def equal_differences(ctx, P):
    for c in P.subclasses("SimpleHeatExchanger"):
        m, env, a = c04.strict_model(P, c)
        post_state(m)
        f = m.meth(m.self, "calc_parameters")
        _, st, exc = m.run(f, [], {})
        from .c13 import literals
        for t in ("self.Tamb.is_set",):
            a.update(literals(spec(m, t, env)))
        v = m.I.getattr_(m.I.getattr_(m.self, "kA", st, m.fr), "val", st, m.fr)
        r = dd.restrict(dd.restrict(v, st.assume), a)
        if r == spec(m, "self.kA.val", env):
            continue                       # not a result of this class
        want = [dd.restrict(spec(m, expand("abs(m[i] * (h[o] - h[i]) / %s)" % u), env), a) for u in (U1, U2)]
        key = "%s result kA with equal temperature differences" % c.name
        got = [_same(r, w) for w in want]
        ctx.check(True if True in got else None if None in got or undecided(r) else False, key, where(f), "%s" % short(r))


# change of state drawn in a diagram: line -> (start, end), constant property
def process_lines(c, m):
    fam = {getattr(x, "name", None) for x in c.mro}
    i, o = m.inl, m.outl
    if "Drum" in fam:
        return {1: (o[0], o[1]), 2: (i[0], o[0]), 3: (i[0], o[1]), 4: (i[1], o[0]), 5: (i[1], o[1])}, "p"
    if "DropletSeparator" in fam:
        return {k + 1: (i[0], x) for k, x in enumerate(o)}, "p"
    if "Merge" in fam:
        return {k + 1: (x, o[0]) for k, x in enumerate(i)}, "p"
    if "HeatExchanger" in fam:
        return {1: (i[0], o[0]), 2: (i[1], o[1])}, "p"
    if "SimpleHeatExchanger" in fam:
        return {1: (i[0], o[0])}, "p"
    if "Valve" in fam:
        return {1: (i[0], o[0])}, "h"
    if "Turbomachine" in fam:
        return {1: (i[0], o[0])}, "s"
    return None, None


def plotting(ctx, P):
    """data handed to the state diagrams: every line leads from the state of
    its own inlet to the state of its own outlet"""
    from ..common import concrete
    seen = 0
    for c in concrete(P):
        with ctx.guard("diagram data of %s" % c.name):
            m = Model(P, c, **next(iter(configs(c)))[1])
            want, prop = process_lines(c, m)
            if want is None:
                continue
            f = m.meth(m.self, "get_plotting_data")
            v, st, exc = m.run(f, [], {})
            got = {}
            for _, k, d in m.I.dict_items(st, v):
                got[int(k.const_val()) if isinstance(k, R) else k] = {kk: x for _, kk, x in m.I.dict_items(st, d)}
            ctx.check(set(got) == set(want), "diagram data of %s: lines" % c.name, where(f), "lines %s" % sorted(got))
            for k, (a, b) in want.items():
                d = got.get(k)
                if d is None:
                    continue
                key = "diagram data of %s, line %d" % (c.name, k)
                val = lambda x, q: m.attr(m.attr(x, {"v": "vol"}.get(q, q)), "val")
                ps, pe = d.get("starting_point_property"), d.get("ending_point_property")
                ok = d.get("isoline_property") == prop and _same(d.get("isoline_value"), val(a, prop)) and \
                    _same(d.get("isoline_value_end"), val(b, prop)) and isinstance(ps, str) and isinstance(pe, str) and \
                    _same(d.get("starting_point_value"), val(a, ps)) and _same(d.get("ending_point_value"), val(b, pe))
                ctx.check(ok, key, where(f), "%s" % {q: short(x) if not isinstance(x, str) else x for q, x in d.items()})
                seen += 1
    ctx.count("diagram lines", seen)
    ctx.floor("diagram lines", seen, 20)


CONN = {"T": "T[c]", "vol": "v[c]", "v": "v[c] * m[c]", "s": "s[c]", "x": "x[c]", "Td_bp": "T[c] - Tsat[c]",
        "m": "m[c]", "p": "p[c]", "h": "h[c]"}


def connection_results(ctx, P):
    from ..conn import ConnModel
    cm = ConnModel(P)
    m, c = cm.m, cm.c
    ctx.units.add("src/tespy/connections/connection.py")
    f = m.meth(c, "calc_results")
    _, st, exc = m.run(f, [], {})
    for k, text in CONN.items():
        key = "connection result %s" % k
        with ctx.guard(key):
            o = m.attr(c, k)
            val = dd.restrict(m.I.getattr_(o, "val_SI", st, m.fr), st.assume)
            w = spec(m, expand(text), {"c": c})
            own = spec(m, "c.%s.val_SI" % k, {"c": c})
            isset = spec(m, "c.%s.is_set" % k, {"c": c})

            def leaf(q, v):
                if undecided(v):
                    return "?"
                if isinstance(v, R) and v == w:
                    return "ok"
                if isinstance(v, R) and (v == own and (q is True or k in ("x", "Td_bp")) or "nan" in str(v)):
                    return "kept"
                return False
            ls = {l for _, l in dd.leaves(dd.apply(leaf, isset, val))}
            ok = False if (False in ls or "ok" not in ls) else None if "?" in ls else True
            ctx.check(ok, key, where(f), "stored SI value is %s, defined as %s" % (short(val), text))
        key = "connection result %s in the unit of the user" % k
        with ctx.guard(key):
            o = m.attr(c, k)
            val = dd.restrict(m.I.getattr_(o, "val", st, m.fr), st.assume)
            conv = spec(m, "convert_from_SI", module="tespy.connections.connection")
            w = dd.restrict(spec(m, "conv(%r, c.%s.val_SI, c.%s.unit)" % (k, k, k), {"c": c, "conv": conv}, st), st.assume)
            ctx.check(_same(val, w), key, where(f), "stored value is %s instead of %s" % (short(val), short(w)))
    for k in ("m", "p", "h"):
        key = "connection starting value %s of the next calculation" % k
        with ctx.guard(key):
            o = m.attr(c, k)
            ctx.check(_same(dd.restrict(m.I.getattr_(o, "val0", st, m.fr), st.assume),
                            dd.restrict(m.I.getattr_(o, "val", st, m.fr), st.assume)), key, where(f),
                      "is not the result of this calculation")
    stale(ctx, P)


def stale(ctx, P):
    """a quantity that does not exist in the present state is not reported"""
    names = {"x": "calc_x", "Td_bp": "calc_Td_bp", "phase": "calc_phase"}
    con = "tespy.connections.connection."
    for n, missing in ((1, ()), (1, ("x",)), (1, ("Td_bp",)), (1, ("phase",)), (1, ("x", "Td_bp", "phase")), (2, ())):
        key0 = "pure fluid without %s" % ", ".join(missing) if missing else "pure fluid" if n == 1 else "mixture"
        with ctx.guard("results of a " + key0):
            cm = ConnModel(P)
            m, c = cm.m, cm.c

            def value(k, bad):
                def h(I, a, kw, st, fr, fv):
                    if bad:
                        fr.raises.append((st.pc, "ValueError", st.copy()))
                        st.pc = False
                        return None
                    return sym("new." + k)
                return h
            for k, f in names.items():
                m.I.intrinsics[con + "Connection." + f] = value(k, k in missing)
            for f in ("calc_T", "calc_vol", "calc_s"):
                m.I.intrinsics[con + "Connection." + f] = value(f, False)
            m.I.intrinsics["tespy.tools.fluid_properties.helpers.get_number_of_fluids"] = lambda I, a, kw, st, fr, fv: num(n)
            for k in names:
                m.setv(m.attr(c, k), "val", sym("old." + k))
                m.setv(m.attr(c, k), "val_SI", sym("old." + k))
                m.setv(m.attr(c, k), "is_set", False)
            f = m.meth(c, "calc_results")
            _, st, exc = m.run(f, [], {})
            for k in names:
                v = m.I.getattr_(m.attr(c, k), "val" if k == "phase" else "val_SI", st, m.fr)
                v = dd.restrict(v, st.assume)
                want = sym("nan") if k in missing or n > 1 else sym("new." + k)
                ctx.check(_same(v, want), "%s of a %s" % (k, key0), where(f), "is %s, expected %s" % (short(v), short(want)))


def _same(a, b):
    from ..common import same
    return same(a, b)
