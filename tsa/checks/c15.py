"""Busses: the value a component contributes, its derivatives, the balance of
the bus and the reported results."""
from .. import dd
from ..common import program, concrete, where, spec, same
from ..configs import configs, shared
from ..interp import (OBJS, Ref, num, sym, MISSING, UNDEF, new_obj, _unhk, Frame, BoundV)
from ..jac import explicit
from ..model import Model
from ..net import NetModel
from ..poly import R, atom, ZERO
from .c01 import short
from .c04 import expand

EXPL = ("A Bus object is built through its own constructor over a model of the pandas table. For every component class, bus "
        "parameter and efficiency base the contribution (bus_func, calc_bus_value) is value-numbered and compared with the "
        "documented definition, the derivative entries are compared with the derivative of the contribution, the balance of the "
        "bus with specified value minus the sum of contributions, and the reported table with the same contributions.")

STUBS = ("pandas", "nparr")
Q = "m[i%d] * (h[o%d] - h[i%d])"


def definitions(ns):
    """{parameter: documented value}"""
    if "CombustionEngine" in ns:
        return {"TI": "self.calc_ti()", "P": "self.calc_P()", "Qloss": "self.calc_Qloss()",
                "Q": "-(%s) - (%s)" % (Q % (1, 1, 1), Q % (2, 2, 2)), "Q1": "-(%s)" % (Q % (1, 1, 1)), "Q2": "-(%s)" % (Q % (2, 2, 2))}
    if "CombustionChamber" in ns:
        return {None: "self.calc_ti()"}
    if "WaterElectrolyzer" in ns:
        return {"P": "self.calc_P()", "Q": "-(%s)" % (Q % (1, 1, 1))}
    if ns & {"Turbomachine", "SimpleHeatExchanger", "HeatExchanger"}:
        return {None: Q % (1, 1, 1)}
    return None


def names(c):
    return {x.name for x in c.mro if not isinstance(x, str)}


def ports(m):
    env = {}
    for p, l in (("i", m.inl), ("o", m.outl)):
        for i, c in enumerate(l):
            env["%s%d" % (p, i + 1)] = c
    return env


def i_newton(I, args, kwargs, st, fr, fv):
    """root of the bus value relation (the iteration itself is analysed in
    C13): depends on component value, reference and characteristic."""
    f = kwargs.get("function")
    if kwargs.get("parameter") != "bus_value" or not isinstance(kwargs.get("char_func"), R):
        return NotImplemented
    kw = {k: v for k, v in kwargs.items() if k in ("component_value", "reference_value", "char_func")}
    body = I.call(f, [], dict(kw, bus_value=sym("#bus")), st, fr)
    def mk(b, t):
        return R.of(atom("fn", "busroot", b, t)) if isinstance(b, R) and isinstance(t, R) else I.unk("bus root")
    return dd.apply(mk, body, kwargs.get("target_value", num(0)))


def opaque_balance(m):
    """thermal input, power and heat loss of combustion units: functions of
    exactly the variables their source reads (their definition is C04's)"""
    for nm in ("calc_ti", "calc_P", "calc_Qloss"):
        f = m.cls.find(nm)
        if f is None:
            continue
        v, st, _ = m.run(m.meth(m.self, nm), [], {})
        dep = set()
        for _, l in dd.leaves(dd.restrict(v, st.assume)):
            if not isinstance(l, R):
                dep = None
                break
            for va in m.vars:
                if any(m.mentions(a, va) for a in l.atoms()):
                    dep.add(va)
        if not dep:
            continue
        val = R.of(atom("fn", nm, *[R.of(a) for a in sorted(dep, key=lambda a: a.id)]))
        m.I.intrinsics["%s.%s.%s" % (f[0].module.name, f[0].name, nm)] = lambda I, a, k, st, fr, fv, val=val: val


def bus_for(m, param, base):
    """a bus holding the component of the model"""
    I = m.I
    b = I.instantiate(m.P.classes["Bus"], ["bus"], {}, m.st, m.fr)
    add_row(m, b, m.self, "", param, base)
    return b


def add_row(m, b, comp, tag, param, base):
    I = m.I
    fr = Frame(m.fr.module, None, "<top>", None)
    fr.node = None
    I.call(I.getattr_(b, "add_comps", m.st, fr), [I.new_dict(m.st, [("comp", comp)])], {}, m.st, fr)
    put(m, b, comp, "P_ref", sym("P_ref" + tag))
    put(m, b, comp, "char", sym("char" + tag))
    put(m, b, comp, "param", param)
    put(m, b, comp, "base", base)


def put(m, b, comp, col, v):
    loc = m.I.getattr_(m.I.getattr_(b, "comps", m.st, m.fr), "loc", m.st, m.fr)
    m.I.setitem(loc, (comp, col), v, m.st, m.fr)


def cellv(m, b, comp, col, st=None):
    st = st or m.st
    loc = m.I.getattr_(m.I.getattr_(b, "comps", st, m.fr), "loc", st, m.fr)
    return m.I.getitem(loc, (comp, col), st, m.fr)


VALUE = {
    "component": "({e}) * char.evaluate(1 if np.isnan(P_ref) or P_ref == 0 else abs(({e}) / P_ref))",
    "bus": "({e}) / char.evaluate(1 if np.isnan(P_ref) or P_ref == 0 else busroot / P_ref)",
}


def components(ctx, P):
    seen = 0
    for c in concrete(P):
        ns = names(c)
        defs = definitions(ns)
        for tag, kw in list(configs(c))[:1] + list(shared(c)):
            with ctx.guard("bus values of %s" % c.name):
                m = Model(P, c, **kw)
                m.I.intrinsics["tespy.tools.helpers.newton_with_kwargs"] = i_newton
                if m.cls.find("bus_func") is None or m.cls.find("bus_deriv") is None:
                    lack = "bus_func" if m.cls.find("bus_func") is None else "bus_deriv"
                    ctx.violate("%s can be part of a bus" % c.name, c.module.rel, "the class has no %s" % lack)
                    continue
                env = ports(m)
                opaque_balance(m)
                for par, text in (defs or {None: "0"}).items():
                    for base in ("component", "bus"):
                        b = bus_for(m, par, base)
                        one(ctx, m, c, b, env, par, base, text, defs is not None)
                        seen += 1
                if defs and None not in defs:
                    b = bus_for(m, "nonsense", "component")
                    for nm, arg in (("bus_func", None), ("bus_deriv", b)):
                        f = m.meth(m.self, nm)
                        if arg is None:
                            loc = m.attr(b, "comps", "loc")
                            arg = m.I.getitem(loc, m.self, m.st, m.fr)
                        v, st, exc = m.run(f, [arg], {})
                        ctx.check((True, "ValueError") in exc, "%s.%s rejects unknown bus parameters" % (c.name, nm), where(f), "raises %s" % exc)
    ctx.count("component bus values", seen)
    ctx.floor("component bus values", seen, 40)


def one(ctx, m, c, b, env, par, base, text, active):
    key = "%s on a bus%s, %s base" % (c.name, "" if par is None else ", parameter %s" % par, base)
    with ctx.guard(key):
        f = m.meth(m.self, "bus_func")
        row = m.I.getitem(m.attr(b, "comps", "loc"), m.self, m.st, m.fr)
        v, st, exc = m.run(f, [row], {})
        v = dd.restrict(v, st.assume)
        w = spec(m, expand(text), env)
        if base == "component":
            ctx.check(same(v, w), key + ": component value", where(f), "is %s, documented %s" % (short(v), short(w)))
        # value on the bus
        g = m.meth(m.self, "calc_bus_value")
        bv, st2, exc2 = m.run(g, [b], {})
        bv = dd.restrict(bv, st2.assume)
        e2 = dict(env, P_ref=sym("P_ref"), char=sym("char"))
        cv = m.I.getattr_(sym("char"), "evaluate", m.st, m.fr)
        body = dd.apply(lambda x: sym("#bus") - x / m.I.call(cv, [sym("#bus") / sym("P_ref")], {}, m.st, m.fr), w)
        e2["busroot"] = dd.apply(lambda x: R.of(atom("fn", "busroot", x, ZERO)), body)
        e2["E"] = w
        bw = spec(m, VALUE[base].format(e="E"), e2)
        ctx.check(same(bv, bw), key + ": value on the bus", where(g), "is %s, documented %s" % (short(bv), short(bw)))
        # derivatives
        d = m.meth(m.self, "bus_deriv")
        jac = m.attr(b, "jacobian")
        for (rounds, msg) in ((1, "derivative"), (2, "derivative of two components in one column")):
            if rounds == 2 and base == "bus":
                continue
            s0 = m.st
            m.st = s0.copy()
            for _ in range(rounds):
                _, s, exc3 = m.run(d, [b], {})
                m.st = s
            got = {}
            for k in m.I.dict_keys(m.st, jac):
                got[_unhk(k)] = dd.restrict(m.st.heap.get((jac.oid, "k", k)), m.st.assume)
            m.st = s0
            cols = set()
            for va, (vn, isvar, col, owner) in m.vars.items():
                exp = dd.apply(lambda x: num(-rounds) * x, m.D(bv, va))
                gv = got.get(col, MISSING)
                cols.add(col)
                if vn.startswith("self.") and gv is MISSING and not (vn == "self.P" and par in ("P", "Qloss")):
                    continue
                if ".fluid[" in vn:
                    # property functions of fixed compositions
                    if gv is MISSING:
                        exp = dd.apply(lambda x: explicit(x) if isinstance(x, R) else x, exp)
                if isvar is True or isvar is False:
                    on, e_on, off = (gv, exp, MISSING) if isvar else (MISSING, ZERO, gv)
                else:
                    asg = dd.literals(isvar)
                    on, e_on = dd.restrict(gv, asg), dd.restrict(exp, asg)
                    off = dd.restrict(gv, {x: not y for x, y in asg.items()})
                on = dd.apply(lambda x: ZERO if x is MISSING or x is UNDEF else x, on)
                off = dd.apply(lambda x: ZERO if x is MISSING or x is UNDEF else x, off)
                ctx.check(same(on, e_on), "%s: %s to %s" % (key, msg, vn), where(d),
                          "entry %s, derivative of minus the bus value %s" % (short(on), short(e_on)))
                ctx.check(same(off, ZERO), "%s: no entry for %s when it is no variable" % (key, vn), where(d), "entry %s" % short(off))
            for col in got:
                if col not in cols:
                    ctx.violate("%s: column %s" % (key, col), where(d), "entry in a column of no variable of the component")


def cell_of(N, o):
    return o


def balance(ctx, P):
    """Bus.solve, Network.process_busses on a bus with several components"""
    for nbus in (1, 2):
        for mode in ("design", "offdesign"):
            N = NetModel(P)
            comps, busses = [], []
            I = N.I
            for j in range(3):
                cp = new_obj("object", P.classes["Component"], path="cp%d" % j)
                N.set(cp, "label", "cp%d" % j)
                for nm in ("calc_bus_value", "calc_bus_efficiency", "bus_func", "calc_bus_expr"):
                    N.set(cp, nm, I.ext("stub.cp%d.%s" % (j, nm)))

                    def h(I, args, kw, st, fr, j=j, nm=nm):
                        o = args[0]
                        lab = I.getattr_(o, "label", st, fr) if isinstance(o, Ref) and (o.oid, "a", "label") in st.heap else None
                        if lab is None:
                            ch = I.getitem(o, "char", st, fr)
                            lab = str(ch)[-1] if nm == "bus_func" else "?"
                        return sym("%s(cp%d,%s)" % (nm, j, lab[-1]))
                    I.intrinsics["ext:stub.cp%d.%s" % (j, nm)] = h
                N.set(cp, "bus_deriv", I.ext("stub.cp%d.bus_deriv" % j))
                I.intrinsics["ext:stub.cp%d.bus_deriv" % j] = lambda I, a, k, st, fr, j=j: N.log.append(j)
                comps.append(cp)
            N.log = []
            for k in range(nbus):
                b = I.instantiate(P.classes["Bus"], ["b%d" % k], {}, N.st, N.fr)
                for j, cp in enumerate(comps):
                    I.call(I.getattr_(b, "add_comps", N.st, N.fr), [I.new_dict(N.st, [("comp", cp)])], {}, N.st, N.fr)
                    loc = I.getattr_(I.getattr_(b, "comps", N.st, N.fr), "loc", N.st, N.fr)
                    I.setitem(loc, (cp, "P_ref"), sym("Pref%d%d" % (j, k)), N.st, N.fr)
                    I.setitem(loc, (cp, "char"), sym("char%d%d" % (j, k)), N.st, N.fr)
                    I.setitem(loc, (cp, "base"), "bus" if j == 1 else "component", N.st, N.fr)
                N.set(N.get(b, "P"), "val", sym("P%d" % k))
                busses.append(b)
            # balance
            f = N.meth(busses[0], "solve")
            with ctx.guard("bus balance"):
                N.run(busses[0], "solve")
                want = sym("P0")
                for j in range(3):
                    want = want - sym("calc_bus_value(cp%d,0)" % j)
                got = N.get(busses[0], "residual")
                ctx.check(same(got, want), "bus balance of three components", where(f), "residual %s" % short(got))
                ctx.check(sorted(N.log) == [0, 1, 2], "derivatives of every component on the bus are collected once", where(f), "collected %s" % N.log)
            # results
            f = N.meth(N.nw, "process_busses")
            with ctx.guard("results of busses"):
                N.set(N.nw, "busses", N.dict([]))
                N.set(N.nw, "results", N.dict([]))
                _, exc = N.run(N.nw, "add_busses", *busses)
                ctx.check(not exc, "busses can be added to a network", where(N.meth(N.nw, "add_busses")), "raises %s" % exc)
                N.set(N.nw, "mode", mode)
                N.run(N.nw, "process_busses")
                for k, b in enumerate(busses):
                    res = I.dict_get(N.st, N.get(N.nw, "results"), "b%d" % k)
                    tot = ZERO
                    for j, cp in enumerate(comps):
                        tot = tot + sym("calc_bus_value(cp%d,%d)" % (j, k))
                        loc = I.getattr_(res, "loc", N.st, N.fr)
                        bv, cv = sym("calc_bus_value(cp%d,%d)" % (j, k)), sym("bus_func(cp%d,%d)" % (j, k))
                        want = {"component value": cv, "bus value": bv, "efficiency": sym("calc_bus_efficiency(cp%d,%d)" % (j, k)),
                                "design value": sym("Pref%d%d" % (j, k)) if mode == "offdesign" else (bv if j == 1 else cv)}
                        for col, w in want.items():
                            got = I.getitem(loc, ("cp%d" % j, col), N.st, N.fr)
                            ctx.check(same(got, w), "%s of component %d on bus %d of %d (%s)" % (col, j, k, nbus, mode), where(f), "is %s" % short(got))
                        ref = I.getitem(I.getattr_(I.getattr_(b, "comps", N.st, N.fr), "loc", N.st, N.fr), (cp, "P_ref"), N.st, N.fr)
                        ctx.check(same(ref, want["design value"]), "reference value of component %d on bus %d of %d (%s)" % (j, k, nbus, mode), where(f), "is %s" % short(ref))
                    got = N.get(b, "P", "val")
                    ctx.check(same(got, tot), "total of bus %d of %d (%s)" % (k, nbus, mode), where(f), "is %s" % short(got))


def efficiency(ctx, P):
    m = Model(P, P.classes["Pump"])
    m.I.intrinsics["tespy.tools.helpers.newton_with_kwargs"] = i_newton
    for base in ("component", "bus"):
        b = bus_for(m, None, base)
        f = m.meth(m.self, "calc_bus_efficiency")
        with ctx.guard("bus efficiency, %s base" % base):
            v, st, _ = m.run(f, [b], {})
            x, _, _ = m.run(m.meth(m.self, "calc_bus_expr"), [b], {})
            ev = m.I.getattr_(sym("char"), "evaluate", m.st, m.fr)
            w = dd.apply(lambda y: m.I.call(ev, [y], {}, m.st, m.fr), x)
            ctx.check(same(v, w), "bus efficiency, %s base" % base, where(f), "is %s" % short(v))


def inputs(ctx, P):
    """set_attr and add_comps: what is stored, what is rejected"""
    def fresh():
        N = NetModel(P)
        b = N.I.instantiate(P.classes["Bus"], ["b"], {}, N.st, N.fr)
        cp = new_obj("object", P.classes["Pump"], path="cp")
        N.set(cp, "label", "cp")
        return N, b, cp

    def row(N, b, cp, col):
        loc = N.get(b, "comps", "loc")
        return N.I.getitem(loc, (cp, col), N.st, N.fr)
    N, b, cp = fresh()
    f = N.meth(b, "add_comps")
    with ctx.guard("defaults of a bus component"):
        N.run(b, "add_comps", N.dict([("comp", cp)]))
        ctx.check(row(N, b, cp, "base") == "component", "default base", where(f), "is %s" % (row(N, b, cp, "base"),))
        ctx.check(row(N, b, cp, "param") is None, "default parameter", where(f), "is %s" % (row(N, b, cp, "param"),))
        ch = row(N, b, cp, "char")
        v = N.I.call(N.I.getattr_(ch, "evaluate", N.st, N.fr), [sym("x")], {}, N.st, N.fr)
        ctx.check(same(v, num(1)), "default efficiency is one at any load", where(f), "is %s" % short(v))
        ctx.check(str(row(N, b, cp, "P_ref")) == "nan", "no reference value before the first calculation", where(f), "is %s" % (row(N, b, cp, "P_ref"),))
    N, b, cp = fresh()
    with ctx.guard("numeric efficiency"):
        from fractions import Fraction
        for eta in (Fraction(9, 10), num(0)):
            e = R.const(eta) if not isinstance(eta, R) else eta
            N, b, cp = fresh()
            N.run(b, "add_comps", N.dict([("comp", cp), ("char", e), ("base", "bus"), ("param", "P"), ("P_ref", R.const(5))]))
            ch = row(N, b, cp, "char")
            v = N.I.call(N.I.getattr_(ch, "evaluate", N.st, N.fr), [sym("x")], {}, N.st, N.fr)
            ctx.check(same(v, e), "numeric efficiency %s holds at any load" % e, where(f), "is %s" % short(v))
            ctx.check(row(N, b, cp, "base") == "bus", "base is stored", where(f), "is %s" % (row(N, b, cp, "base"),))
            ctx.check(row(N, b, cp, "param") == "P", "parameter is stored", where(f), "is %s" % (row(N, b, cp, "param"),))
            ctx.check(same(row(N, b, cp, "P_ref"), R.const(5)), "reference value is stored", where(f), "is %s" % (row(N, b, cp, "P_ref"),))
    cl = None
    N, b, cp = fresh()
    cl = new_obj("object", P.classes["CharLine"], path="cl")
    with ctx.guard("characteristic line"):
        N.run(b, "add_comps", N.dict([("comp", cp), ("char", cl)]))
        ctx.check(row(N, b, cp, "char") is cl, "characteristic line is stored", where(f), "is %s" % (row(N, b, cp, "char"),))
    bad = [("not a dictionary", "x", "TypeError"), ("without component", [("char", num(1))], "TypeError"),
           ("component of another type", [("comp", "pump")], "TypeError"), ("parameter not a string", [("comp", None), ("param", num(5))], "TypeError"),
           ("efficiency a word", [("comp", None), ("char", "high")], "TypeError"), ("reference a word", [("comp", None), ("P_ref", "high")], "TypeError"),
           ("unknown base", [("comp", None), ("base", "grid")], "ValueError")]
    for what, arg, exc in bad:
        N, b, cp = fresh()
        with ctx.guard("rejected: " + what):
            a = arg if isinstance(arg, str) else N.dict([(k, cp if v is None and k == "comp" else v) for k, v in arg])
            _, e = N.run(b, "add_comps", a)
            ctx.check((True, exc) in e, "bus component rejected: " + what, where(f), "raises %s" % e)
    f = N.meth(b, "set_attr")
    for val, want in ((sym("W"), True), (None, False), (sym("nan"), False)):
        N, b, cp = fresh()
        N.set(N.get(b, "P"), "is_set", sym("old") if False else (val is None or str(val) == "nan"))
        with ctx.guard("bus value %s" % val):
            N.run(b, "set_attr", P=val)
            got = N.get(b, "P", "is_set")
            if val is not None and want:
                asg = {x: not y for x, y in dd.literals(N.I.B("isnan", sym("W"))).items()}
                ctx.check(dd.restrict(got, asg) is True, "a value makes the bus a specification", where(f), "is_set %s" % short(got))
                v = dd.restrict(N.get(b, "P", "val"), asg)
                ctx.check(same(v, sym("W")), "the bus value is stored", where(f), "val %s" % short(v))
            else:
                ctx.check(got is False, "%s removes the specification of the bus" % val, where(f), "is_set %s" % short(got))
    for kw, exc in (({"P": "x"}, "TypeError"), ({"printout": num(5)}, "TypeError"), ({"power": num(5)}, "KeyError")):
        N, b, cp = fresh()
        with ctx.guard("bus attribute %s" % kw):
            _, e = N.run(b, "set_attr", **kw)
            ctx.check((True, exc) in e, "bus attribute rejected: %s" % list(kw)[0], where(f), "raises %s" % e)


def run(ctx):
    ctx.rule = ("component value == documented energy flow; bus value == component value * eta (component base) or / eta (bus base), eta at the "
                "load relative to the reference; d/dx entries == -d(bus value)/dx accumulated; residual == P - sum; reported table == the same values")
    P = program(STUBS)
    for x in ("src/tespy/connections/bus.py", "src/tespy/components", "src/tespy/networks/network.py"):
        ctx.units.add(x)
    components(ctx, P)
    efficiency(ctx, P)
    balance(ctx, P)
    inputs(ctx, P)
    ctx.assumptions = ["pandas tables behave as labelled rows and columns (model in tsa/stubs/pandas.py)",
                       "the fixed point of the bus value iteration is analysed in C13"]
    return EXPL
