"""Exergy and entropy balances of streams and components."""
import itertools

from .. import dd
from ..common import program, concrete, where, spec, same
from ..configs import configs
from ..dd import literals, NOT
from ..interp import Ref, num, sym, MISSING, UNDEF
from ..model import Model
from .c01 import short
from .c15 import names, ports

EXPL = ("exergy_balance and entropy_balance of every component class are value-numbered with symbolic stream exergies, for every "
        "regime of stream temperatures above or below the ambient temperature and every direction of heat flow; fuel, product, "
        "destruction, efficiency and bus exergy are compared with the documented definitions and with the balance of entering "
        "and leaving exergy, entropy production with the documented entropy balance.")

NAN = sym("nan")
PH = "Ex_physical"

# regime: string of > and < per port (inlets, then outlets); None: any
# entries: (regime, extra conditions, E_F, E_P or None, E_bus massless)
TURBO = [
    (">>", "", "P", "oPH - iPH"),
    ("<>", "", "P + iT", "oT + oM - iM"),
    ("<<", "", "P + iT - oT", "oM - iM"),
]
TABLE = {
    "Compressor": (TURBO, "P", "P + iPH - oPH"),
    "Pump": (TURBO, "P", "P + iPH - oPH"),
    "Turbine": ([
        (">>", "", "iPH - oPH", "-P"),
        ("><", "", "iT + iM - oM", "-P + oT"),
        ("<<", "", "iM - oM", "-P + oT - iT"),
    ], "-P", "P + iPH - oPH"),
    "Valve": ([
        (">>", "", "iPH - oPH", None),
        ("><", "", "iT + iM - oM", "oT"),
        ("<<", "", "iM - oM", "oT - iT"),
    ], None, "iPH - oPH"),
    "HeatExchanger": ([
        (">>>>", "", "i1PH - o1PH + i2M - o2M", "o2T - i2T"),
        ("<<<<", "", "i2PH - o2PH + i1M - o1M", "o1T - i1T"),
        ("><<>", "", "i1PH + i2PH - o1M - o2M", "o1T + o2T"),
        ("><<<", "", "i1PH + i2PH - o2PH - o1M", "o1T"),
        ("><><", "", "i1PH - o1PH + i2PH - o2PH", None),
        ("><>>", "", "i1PH - o1PH + i2PH - o2M", "o2T"),
    ], None, "i1PH + i2PH - o1PH - o2PH"),
    "SimpleHeatExchanger": ([
        (">>", "Q<0,dissipative", "iPH - oPH", None),
        (">>", "Q<0,useful", "iPH - oPH", "iT - oT"),
        ("><", "Q<0", "iT + iM + oT - oM", "oT"),
        ("<<", "Q<0", "oT - iT + iM - oM", "oT - iT"),
        (">>", "Q>0", "oT - iT", "oPH - iPH"),
        ("<>", "Q>0", "iT + iM - oM", "iT + oT"),
        ("<<", "Q>0,useful", "iT - oT", "iT - oT + oM - iM"),
        ("<<", "Q>0,dissipative", "iT - oT", None),
    ], None, None),
    "Drum": ([(None, "", "i1PH + i2PH", "o1PH + o2PH")], None, "i1PH + i2PH - o1PH - o2PH"),
    "CombustionChamber": ([(None, "", "i1CH + i2CH - o1CH", "o1PH - i1PH - i2PH")], None,
                          "i1PH + i1CH + i2PH + i2CH - o1PH - o1CH"),
    "CombustionEngine": ([(None, "", "i3CH + i4CH - o3CH",
                           "o3PH - i3PH - i4PH - P + o1PH - i1PH + o2PH - i2PH")], "-P",
                         "P + i1PH + i2PH + i3PH + i4PH + i3CH + i4CH - o1PH - o2PH - o3PH - o3CH"),
    "WaterElectrolyzer": ([(None, "", "P", "o2CH + o3CH - i2CH + o1PH - i1PH")], "P", None),
}
# heat exergy exchanged by a simple heat exchanger
SHX_BUS = {(">>", "Q<0,useful"): "iT - oT", ("<<", "Q<0"): "oT - iT", (">>", "Q>0"): "oT - iT",
           ("<<", "Q>0,useful"): "iT - oT", ("<<", "Q>0,dissipative"): "iT - oT"}


def rule_of(ns):
    for k in ("CombustionEngine", "CombustionChamber", "WaterElectrolyzer", "Compressor", "Pump", "Turbine", "Valve",
              "SimpleHeatExchanger", "HeatExchanger", "Drum"):
        if k in ns:
            return k
    return None


def exergies(m):
    """symbolic specific exergies; rates are mass flow times these"""
    env = {}
    for p, l in (("i", m.inl), ("o", m.outl)):
        for n, c in enumerate(l):
            mf = m.attr(c, "m", "val_SI")
            nm = "%s%d" % (p, n + 1)
            th, me, ch = sym("et[%s]" % nm), sym("em[%s]" % nm), sym("ec[%s]" % nm)
            for k, v in (("therm", th), ("mech", me), ("physical", th + me), ("chemical", ch)):
                m.setv(c, "ex_" + k, v)
                V = dd.apply(lambda a, v=v: a * v, mf)
                m.setv(c, "Ex_" + k, V)
                env[nm + {"therm": "T", "mech": "M", "physical": "PH", "chemical": "CH"}[k]] = V
    if len(m.inl) == 1 and len(m.outl) == 1:
        for k in list(env):
            env[k[0] + k[2:]] = env[k]
    return env


def case(m, cond):
    """assignment of a strict comparison"""
    a, b = cond
    out = {}
    I = m.I
    lt = spec(m, "a < b", {"a": a, "b": b})
    gt = spec(m, "b < a", {"a": a, "b": b})
    eq = spec(m, "a == b", {"a": a, "b": b})
    for v, w in ((lt, True), (gt, False), (eq, False)):
        out.update(literals(v if w else NOT(v)))
    return out


T0 = sym("T_amb")


def run_balance(m, st0, assume):
    f = m.meth(m.self, "exergy_balance")
    st = st0.copy()
    saved = dict(m.I.axioms)
    m.I.axioms.update(assume)
    try:
        save, m.st = m.st, st
        try:
            _, st, exc = m.run(f, [T0], {})
        finally:
            m.st = save
        run_balance.exc = [e for e in exc if e[0] is True]
        def get(nm):
            return dd.restrict(m.I.getattr_(m.self, nm, st, m.fr), assume)
        out = {k: get(k) for k in ("E_F", "E_P", "E_D", "epsilon", "E_bus")}
        return out, st, f
    finally:
        m.I.axioms.clear()
        m.I.axioms.update(saved)


def epsilon(m, EF, EP):
    return spec(m, "np.nan if EF == 0 else EP / EF", {"EF": EF, "EP": EP})


def components(ctx, P):
    n = 0
    for c in concrete(P):
        ns = names(c)
        rl = rule_of(ns)
        ctx.units.add(c.module.rel)
        if c.find("exergy_balance") is None:
            ctx.violate("%s has an exergy balance" % c.name, c.module.rel, "no exergy_balance")
            continue
        if "Merge" in ns:
            n += merge(ctx, P, c)
            continue
        if ns & {"Source", "Sink"}:
            n += boundary(ctx, P, c)
            continue
        for tag, kw in list(configs(c))[:1]:
            with ctx.guard("exergy balance of %s" % c.name):
                m = Model(P, c, **kw)
                env = exergies(m)
                if rl is None:
                    out, st, f = run_balance(m, m.st, {})
                    for k in ("E_F", "E_P", "E_D", "epsilon"):
                        ctx.check(same(out[k], NAN), "%s without exergy balance reports no %s" % (c.name, k), where(f), "is %s" % short(out[k]))
                    n += 1
                    continue
                cases, bus, balance = TABLE[rl]
                if has(m, "P"):
                    env["P"] = m.attr(m.self, "P", "val")
                for regime, extra, EF, EP in cases:
                    n += one(ctx, m, c, rl, env, regime, extra, EF, EP, bus, balance)
                if rl != "HeatExchanger":
                    # (for heat exchangers the other regimes do not occur with heat flowing from hot to cold)
                    n += undefined(ctx, m, c, cases)
    ctx.count("balances", n)
    ctx.floor("exergy balances", n, 60)


def undefined(ctx, m, c, cases):
    """temperature regimes for which no balance is defined report none"""
    if cases[0][0] is None:
        return 0
    n = 0
    for reg in itertools.product("><", repeat=len(cases[0][0])):
        reg = "".join(reg)
        for q in sorted({e.split(",")[0] for _, e, _, _ in cases}):
            if any(r == reg and e.split(",")[0] == q for r, e, _, _ in cases):
                continue
            key = "%s, temperatures %s ambient%s" % (c.name, reg, ", " + q if q else "")
            with ctx.guard("undefined exergy balance of " + key):
                assume = {}
                for s, cn in zip(reg, m.inl + m.outl):
                    T = m.attr(cn, "T", "val_SI")
                    assume.update(case(m, (T0, T) if s == ">" else (T, T0)))
                if q:
                    z = m.attr(m.self, "Q", "val")
                    assume.update(case(m, (z, num(0)) if q == "Q<0" else (num(0), z)))
                out, st, f = run_balance(m, m.st.copy(), assume)
                out = {k: settle(m, v, reg, m.inl + m.outl) for k, v in out.items()}
                for k in ("E_F", "E_P"):
                    ctx.check(same(out[k], NAN), "no %s is reported for %s, which has no exergy balance" % (k, key), where(f), "is %s" % short(out[k]))
                n += 1
    return n


def has(m, k):
    try:
        v = m.attr(m.self, k)
        return isinstance(v, Ref)
    except Exception:
        return False


def one(ctx, m, c, rl, env, regime, extra, EF, EP, bus, balance):
    key = "%s, %s%s" % (c.name, {None: "any temperature"}.get(regime, "temperatures %s ambient" % regime), (", " + extra) if extra else "")
    with ctx.guard("exergy balance of " + key):
        assume = {}
        st = m.st.copy()
        if regime:
            for s, cn in zip(regime, m.inl + m.outl):
                T = m.attr(cn, "T", "val_SI")
                assume.update(case(m, (T0, T) if s == ">" else (T, T0)))
        if "Q<0" in extra:
            assume.update(case(m, (m.attr(m.self, "Q", "val"), num(0))))
        if "Q>0" in extra:
            assume.update(case(m, (num(0), m.attr(m.self, "Q", "val"))))
        if has(m, "dissipative"):
            d = m.attr(m.self, "dissipative")
            st.heap[(d.oid, "a", "val")] = "useful" not in extra
        out, st2, f = run_balance(m, st, assume)
        if not ctx.check(not run_balance.exc, "exergy balance of %s can be evaluated" % key, where(f), "raises %s" % (run_balance.exc,)):
            return 1
        sp = lambda t: dd.restrict(spec(m, t, env), assume)
        wF = sp(EF)
        wP = sp(EP) if EP is not None else NAN
        out = {k: settle(m, v, regime, m.inl + m.outl) for k, v in out.items()}
        ctx.check(same(out["E_F"], wF), "fuel exergy of " + key, where(f), "is %s" % short(out["E_F"]))
        ctx.check(same(out["E_P"], wP), "product exergy of " + key, where(f), "is %s" % short(out["E_P"]))
        wD = dd.apply(lambda a, b: a - b, wF, wP) if EP is not None else wF
        ctx.check(same(out["E_D"], wD), "exergy destruction of " + key, where(f), "is %s" % short(out["E_D"]))
        wE = settle(m, dd.restrict(epsilon(m, wF, wP), assume), regime, m.inl + m.outl) if EP is not None else None
        if wE is not None:
            ctx.check(same(out["epsilon"], wE), "exergy efficiency of " + key, where(f), "is %s" % short(out["epsilon"]))
        if balance is not None:
            ctx.check(same(wD, sp(balance)), "table entry of " + key, "/verif/tsa/checks/c09.py", "the documented definition does not close")
        eb = out["E_bus"]
        if not isinstance(eb, Ref):
            ctx.violate("exergy on a bus of " + key, where(f), "E_bus is %s, the exergy analysis reads a table of exergy kinds" % short(eb))
            return 1
        items = {k: v for cd, k, v in m.I.dict_items(st2, eb)
                 if settle(m, dd.restrict(cd, assume), regime, m.inl + m.outl) is True}
        ctx.check(set(items) == {"chemical", "physical", "massless"}, "kinds of exergy on a bus of " + key, where(f), "kinds %s" % sorted(map(str, items)))
        wb = bus
        if rl == "SimpleHeatExchanger":
            wb = SHX_BUS.get((regime, extra))
        if wb is not None and "massless" in items:
            got = settle(m, dd.restrict(items["massless"], assume), regime, m.inl + m.outl)
            ctx.check(same(got, sp(wb)), "massless exergy on a bus of " + key, where(f), "is %s" % short(got))
        return 1
    return 0


def settle(m, v, regime, conns):
    """exergies are numbers; tolerances below 1e-3 K around the ambient
    temperature are immaterial: a stream above it is above by more than that"""
    asg = {}
    for s, cn in zip(regime or "", conns):
        T = m.attr(cn, "T", "val_SI")
        for off in tolerances(v, T):
            for cond, val in lt_literals(m, T - T0 + off, s == ">"):
                asg.update(cond)
    for i in dd.support(v):
        b = dd.BA(i)
        if b.kind == "isnan" and not any(x.kind == "sym" and x.args[0] == "nan" for x in b.args[0].atoms()):
            asg[i] = False
    return dd.restrict(v, asg) if asg else v


def tolerances(v, T):
    out = set()
    for i in dd.support(v):
        b = dd.BA(i)
        if b.kind != "lt":
            continue
        for e in (b.args[0], -b.args[0]):
            d = e - (T - T0)
            if d.is_const() and not d.is_zero() and abs(d.const_val()) < 1e-3:
                out.add(d)
    return out


def lt_literals(m, e, above):
    """e = T - T0 + small: sign known"""
    lt = spec(m, "e < 0", {"e": e})
    gt = spec(m, "0 < e", {"e": e})
    for v, w in ((lt, not above), (gt, above)):
        yield literals(v if w else NOT(v)), w


def merge(ctx, P, c):
    """two and three inlets; outlet above/below ambient, inlets above/below
    outlet and ambient"""
    done = 0
    for n in (2, 3):
        m = Model(P, c, n=n, fix={"re:.*fluid.is_var.*": False, "re:.*fluid.is_set.*": True})
        env = exergies(m)
        for o in "><":
            # per inlet: position relative to outlet and ambient
            pos = ["above outlet and ambient", "between", "below outlet and ambient"]
            for combo in itertools.product(pos, repeat=n):
                key = "%s, outlet %s ambient, inlets %s" % (c.name, o, "; ".join(combo))
                with ctx.guard(key):
                    To = m.attr(m.outl[0], "T", "val_SI")
                    assume = case(m, (T0, To) if o == ">" else (To, T0))
                    EF, EP = num(0), num(0)
                    eo = sym("et[o1]") + sym("em[o1]")
                    for k, (w, i) in enumerate(zip(combo, m.inl)):
                        Ti = m.attr(i, "T", "val_SI")
                        ei = sym("et[i%d]" % (k + 1)) + sym("em[i%d]" % (k + 1))
                        mi = m.attr(i, "m", "val_SI")
                        if w.startswith("above"):
                            assume.update(case(m, (To, Ti)))
                            assume.update(case(m, (T0, Ti)))
                        elif w == "between":
                            assume.update(case(m, (Ti, To) if o == ">" else (To, Ti)))
                            assume.update(case(m, (T0, Ti) if o == ">" else (Ti, T0)))
                        else:
                            assume.update(case(m, (Ti, To)))
                            assume.update(case(m, (Ti, T0)))
                        if w == "between":
                            EP = EP + mi * (eo - ei)
                        elif w.startswith("above") == (o == ">"):
                            EF = EF + mi * (ei - eo)
                        else:
                            EP = EP + mi * eo
                            EF = EF + mi * ei
                    out, st, f = run_balance(m, m.st, assume)
                    ctx.check(not run_balance.exc, "exergy balance of %s can be evaluated" % key, where(f), "raises %s" % (run_balance.exc,))
                    ctx.check(same(out["E_F"], EF), "fuel exergy of " + key, where(f), "is %s" % short(out["E_F"]))
                    ctx.check(same(out["E_P"], EP), "product exergy of " + key, where(f), "is %s" % short(out["E_P"]))
                    ctx.check(same(out["E_D"], EF - EP), "exergy destruction of " + key, where(f), "is %s" % short(out["E_D"]))
                    ctx.check(same(out["epsilon"], dd.restrict(epsilon(m, EF, EP), assume)), "exergy efficiency of " + key, where(f), "is %s" % short(out["epsilon"]))
                    done += 1
    return done


def boundary(ctx, P, c):
    m = Model(P, c)
    exergies(m)
    with ctx.guard("exergy of %s" % c.name):
        out, st, f = run_balance(m, m.st, {})
        items = {k: v for cd, k, v in m.I.dict_items(st, out["E_bus"]) if cd is True} if isinstance(out["E_bus"], Ref) else {}
        cn = (m.inl + m.outl)[0]
        for k in ("chemical", "physical"):
            ctx.check(k in items and same(items[k], m.attr(cn, "Ex_" + k)), "%s exergy crossing the boundary at a %s" % (k, c.name), where(f), "is %s" % short(items.get(k)))
        ctx.check("massless" in items and same(items["massless"], num(0)), "no massless exergy at a %s" % c.name, where(f), "is %s" % short(items.get("massless")))
        for k in ("E_F", "E_P", "E_D"):
            ctx.check(same(out[k], NAN), "%s has no %s" % (c.name, k), where(f), "is %s" % short(out[k]))
        return 1
    return 0


def streams(ctx, P):
    m = Model(P, P.classes["Pump"])
    c = m.inl[0]
    FN = "tespy.tools.fluid_properties.functions."
    seen = {}

    def phys(I, a, k, st, fr, fv):
        seen["phys"] = (a, dict(k))
        return (sym("et"), sym("em"))

    def chem(I, a, k, st, fr, fv):
        seen["chem"] = (a, dict(k))
        return sym("ec")
    m.I.intrinsics[FN + "calc_physical_exergy"] = phys
    m.I.intrinsics[FN + "calc_chemical_exergy"] = chem
    f = m.meth(c, "get_physical_exergy")
    with ctx.guard("physical exergy of a stream"):
        st = m.st.copy()
        m.I.call(f, [sym("pamb"), T0], {}, st, m.fr)
        g = lambda k: m.I.getattr_(c, k, st, m.fr)
        mf = m.attr(c, "m", "val_SI")
        et, em = sym("et"), sym("em")
        for k, w in (("ex_therm", et), ("ex_mech", em), ("ex_physical", et + em), ("Ex_therm", mf * et), ("Ex_mech", mf * em), ("Ex_physical", mf * (et + em))):
            ctx.check(same(g(k), w), "%s of a stream" % k, where(f), "is %s" % short(g(k)))
        a, k = seen["phys"]
        names_ = ["h", "s", "p", "pamb", "Tamb", "fluid_data", "mixing_rule", "T0"]
        got = dict(zip(names_, a))
        got.update(k)
        for nm, w in (("h", m.attr(c, "h", "val_SI")), ("s", m.attr(c, "s", "val_SI")), ("p", m.attr(c, "p", "val_SI")),
                      ("pamb", sym("pamb")), ("Tamb", T0), ("mixing_rule", m.attr(c, "mixing_rule"))):
            ctx.check(nm in got and same(got[nm], w), "physical exergy is evaluated with the stream's %s" % nm, where(f), "is %s" % short(got.get(nm)))
        ctx.check(got.get("fluid_data") is m.attr(c, "fluid_data"), "physical exergy is evaluated with the stream's fluid", where(f), "other fluid data")
    f = m.meth(c, "get_chemical_exergy")
    for lib in (None, sym("library")):
        with ctx.guard("chemical exergy of a stream, library %s" % lib):
            st = m.st.copy()
            m.I.call(f, [sym("pamb"), T0, lib], {}, st, m.fr)
            g = lambda k: m.I.getattr_(c, k, st, m.fr)
            e = num(0) if lib is None else sym("ec")
            asg = {}
            if lib is not None:
                asg = literals(NOT(m.I.B("isnone", lib)))
            for k, w in (("ex_chemical", e), ("Ex_chemical", m.attr(c, "m", "val_SI") * e)):
                ctx.check(same(dd.restrict(g(k), asg), w), "%s of a stream, library %s" % (k, lib), where(f), "is %s" % short(g(k)))
            if lib is not None:
                a, k = seen["chem"]
                got = dict(zip(["pamb", "Tamb", "fluid_data", "Chem_Ex", "mixing_rule", "T0"], a))
                got.update(k)
                for nm, w in (("pamb", sym("pamb")), ("Tamb", T0), ("Chem_Ex", lib), ("mixing_rule", m.attr(c, "mixing_rule"))):
                    ctx.check(nm in got and same(got[nm], w), "chemical exergy is evaluated with the %s" % nm, where(f), "is %s" % short(got.get(nm)))
                ctx.check(got.get("fluid_data") is m.attr(c, "fluid_data"), "chemical exergy is evaluated with the stream's fluid", where(f), "other fluid data")


def entropy(ctx, P):
    n = 0
    for c in concrete(P):
        ns = names(c)
        rl = rule_of(ns)
        if rl in ("CombustionChamber", "CombustionEngine", "WaterElectrolyzer"):
            continue
        for tag, kw in list(configs(c))[:1]:
            m = Model(P, c, **kw)
            f = m.meth(m.self, "entropy_balance")
            with ctx.guard("entropy balance of %s" % c.name):
                st = m.st.copy()
                st.locals = {}
                env = ports(m)
                m.I.call(f, [], {}, st, m.fr)
                g = lambda k: m.I.getattr_(m.self, k, st, m.fr)
                if rl in ("Compressor", "Pump", "Turbine", "Valve") or "Turbomachine" in ns:
                    want = {"S_irr": "i1.m.val_SI * (o1.s.val_SI - i1.s.val_SI)"}
                elif "Merge" in ns:
                    ref = "{0}.m.val_SI * ({0}.s.val_SI - s_mix_pT(1e5, 298.15, {0}.fluid_data, {0}.mixing_rule))"
                    want = {"S_irr": ref.format("o1") + " - " + " - ".join(ref.format("i%d" % (k + 1)) for k in range(len(m.inl)))}
                elif rl == "SimpleHeatExchanger":
                    env["ps"] = spec(m, "i1.p.val_SI * (o1.p.val_SI / i1.p.val_SI) ** 0.5", env)
                    sq = "i1.m.val_SI * (s_mix_ph(ps, o1.h.val_SI, o1.fluid_data, o1.mixing_rule, T0=o1.T.val_SI) - s_mix_ph(ps, i1.h.val_SI, i1.fluid_data, i1.mixing_rule, T0=i1.T.val_SI))"
                    want = {"S_Q": sq, "S_irr": "i1.m.val_SI * (o1.s.val_SI - i1.s.val_SI) - %s" % sq,
                            "T_mQ": "i1.m.val_SI * (o1.h.val_SI - i1.h.val_SI) / (%s)" % sq}
                elif rl == "HeatExchanger":
                    want = {}
                    tot = []
                    for k in (1, 2):
                        env["ps%d" % k] = spec(m, "i%d.p.val_SI * self.pr%d.val ** 0.5" % (k, k), env)
                        sq = ("i{0}.m.val_SI * (s_mix_ph(ps{0}, o{0}.h.val_SI, o{0}.fluid_data, o{0}.mixing_rule, T0=o{0}.T.val_SI)"
                              " - s_mix_ph(ps{0}, i{0}.h.val_SI, i{0}.fluid_data, i{0}.mixing_rule, T0=i{0}.T.val_SI))").format(k)
                        ds = "i{0}.m.val_SI * (o{0}.s.val_SI - i{0}.s.val_SI)".format(k)
                        want["S_Q%d" % k] = sq
                        want["S_irr%d" % k] = "%s - %s" % (ds, sq)
                        want["T_mQ%d" % k] = "i{0}.m.val_SI * (o{0}.h.val_SI - i{0}.h.val_SI) / ({1})".format(k, sq)
                        tot.append(ds)
                    want["S_irr"] = " + ".join(tot)
                else:
                    continue
                for k, t in want.items():
                    w = spec(m, t, env)
                    ctx.check(same(g(k), w), "%s of %s" % (k, c.name), where(f), "is %s" % short(g(k)))
                    n += 1
    ctx.count("entropy results", n)
    ctx.floor("entropy results", n, 25)


def run(ctx):
    ctx.rule = ("E_F, E_P == documented definition per temperature regime; E_D == E_F - E_P (E_F where no product is defined) == entering minus "
                "leaving exergy plus power; epsilon == E_P / E_F; S_irr == sum m s out - in minus entropy transferred with heat")
    P = program(("pandas", "nparr"))
    streams(ctx, P)
    components(ctx, P)
    entropy(ctx, P)
    return EXPL
