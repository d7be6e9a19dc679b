"""The problem that is solved follows from the current specifications alone:
it does not depend on earlier calculations, and calculations do not change
specifications."""
from .. import chem
from ..common import program, same
from ..interp import OBJS, Ref, num, sym, new_obj, FuncV, Frame, MISSING, _unhk
from ..poly import R
from .c08 import build, keys, kind
from .c11 import make, call, at, names, seq

EXPL = ("The whole initialisation (fluids, topology, presolving, variable and equation numbering of connections, components and busses) is "
        "interpreted for networks built through their constructors with symbolic specification values. For every ordered pair of "
        "specification sets the problem set up after a calculation with the first set (completed, aborted or without convergence) is "
        "compared with the problem a fresh network sets up for the second: variables, fixed values, equations, columns. The values and "
        "flags of all specifications are compared before and after each calculation.")
STUBS = ("pandas", "nparr")
NET = "tespy.networks.network.Network."
CON = "tespy.connections.connection.Connection."


def val(n):
    return sym(n) * num(2) + num(1)


# -- networks ---------------------------------------------------------------
GAS = ({"so": "Source", "so2": "Source", "v": "Valve", "me": "Merge", "pi": "Pipe", "spl": "Splitter", "t": "Turbine", "si": "Sink", "sj": "Sink"},
       [("so", "out1", "v", "in1", "1"), ("v", "out1", "me", "in1", "2"), ("so2", "out1", "me", "in2", "3"), ("me", "out1", "pi", "in1", "4"),
        ("pi", "out1", "spl", "in1", "5"), ("spl", "out1", "t", "in1", "6"), ("t", "out1", "si", "in1", "7"), ("spl", "out2", "sj", "in1", "8")])
STEAM = ({"cc": "CycleCloser", "pu": "Pump", "hx": "HeatExchanger", "t": "Turbine", "co": "SimpleHeatExchanger", "so": "Source", "si": "Sink"},
         [("cc", "out1", "pu", "in1", "1"), ("pu", "out1", "hx", "in2", "2"), ("hx", "out2", "t", "in1", "3"), ("t", "out1", "co", "in1", "4"),
          ("co", "out1", "cc", "in1", "5"), ("so", "out1", "hx", "in1", "6"), ("hx", "out1", "si", "in1", "7")])
COMB = ({"ai": "Source", "fu": "Source", "cp": "Compressor", "x": "DiabaticCombustionChamber", "t": "Turbine", "si": "Sink"},
        [("ai", "out1", "cp", "in1", "1"), ("cp", "out1", "x", "in1", "2"), ("fu", "out1", "x", "in2", "3"), ("x", "out1", "t", "in1", "4"),
         ("t", "out1", "si", "in1", "5")])

AIR = {"fluid.N2": num(7) / num(10), "fluid.O2": num(3) / num(10)}


def S(**kw):
    """specification set: {(object, key): value}"""
    out = {}
    for k, v in kw.items():
        o, a = k.split("_", 1)
        out[(o, a.replace("__", "."))] = v
    return out


def gas_sets():
    base = {("1", "fluid.N2"): num(7) / num(10), ("1", "fluid.O2"): num(3) / num(10), ("3", "fluid.N2"): num(1)}
    return GAS, [
        ("values", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "1_m": val("m1"), "3_T": val("T3"), "3_m": val("m3"), "v_pr": val("prv"),
                                     "pi_pr": val("prp"), "pi_Q": val("Q"), "6_m": val("m6"), "t_pr": val("prt"), "t_eta_s": val("eta")})}),
        ("elsewhere", {**base, **S(**{"2_m": val("m2"), "4_p": val("p4"), "2_T": val("T2"), "3_h": val("h3"), "3_m": val("m3"), "v_zeta": val("z"),
                                        "5_T": val("T5"), "5_p": val("p5"), "8_m": val("m8"), "7_p": val("p7"), "7_T": val("T7")})}),
        ("composition of the mixture", {**base, **S(**{"1_m": val("m1"), "1_p": val("p1"), "1_T": val("T1"), "4_fluid.O2": num(2) / num(10), "3_T": val("T3"),
                                                         "v_pr": val("prv"), "pi_pr": val("prp"), "pi_Q": val("Q"), "6_m": val("m6"), "t_pr": val("prt"), "t_eta_s": val("eta")})}),
        ("references", {**base, **S(**{"1_m": val("m1"), "1_p": val("p1"), "1_T": val("T1"), "3_m": ("1", val("f"), val("d")), "3_T": ("1", val("f2"), val("d2")),
                                         "v_pr": val("prv"), "pi_pr": val("prp"), "5_T": ("2", val("f3"), num(0)), "8_m": ("6", val("f4"), num(0)),
                                         "7_p": ("4", val("f5"), num(0)), "7_h": val("h7")})}),
        ("pipe dimensions", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "1_m": val("m1"), "3_T": val("T3"), "3_m": val("m3"), "v_pr": val("prv"),
                                              "pi_L": val("L"), "pi_D": val("D"), "pi_ks": val("ks"), "pi_Q": val("Q"), "6_m": val("m6"), "t_pr": val("prt"), "t_eta_s": val("eta")})}),
        ("variable diameter", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "1_m": val("m1"), "3_T": val("T3"), "3_m": val("m3"), "v_pr": val("prv"),
                                                "pi_L": val("L"), "pi_D": "var", "pi_ks": val("ks"), "5_p": val("p5"), "pi_Q": val("Q"), "6_m": val("m6"), "t_pr": val("prt"), "t_eta_s": val("eta")})}),
        ("power", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "1_v": val("v1"), "3_T": val("T3"), "3_m": val("m3"), "v_pr": val("prv"), "pi_pr": val("prp"),
                                    "pi_Q": val("Q"), "bus_P": val("P"), "t_pr": val("prt"), "t_eta_s": val("eta")})}),
    ]


def steam_sets():
    base = {("3", "fluid.H2O"): num(1), ("6", "fluid.N2"): num(1)}
    return STEAM, [
        ("live steam", {**base, **S(**{"3_p": val("p3"), "3_T": val("T3"), "3_m": val("m3"), "5_x": num(0), "5_p": val("p5"), "t_eta_s": val("eta"), "pu_eta_s": val("etp"),
                                         "co_pr": val("prc"), "hx_pr1": val("pr1"), "hx_pr2": val("pr2"), "6_T": val("T6"), "6_p": val("p6"), "7_T": val("T7")})}),
        ("vapour fraction", {**base, **S(**{"3_x": num(1), "3_p": val("p3"), "6_m": val("m6"), "5_Td_bp": val("Td"), "5_p": val("p5"), "t_eta_s": val("eta"), "pu_P": val("Pp"),
                                              "co_pr": val("prc"), "hx_pr1": val("pr1"), "hx_pr2": val("pr2"), "6_T": val("T6"), "6_p": val("p6"), "hx_ttd_u": val("ttd")})}),
        ("superheating", {**base, **S(**{"3_Td_bp": val("Td"), "3_T": val("T3"), "1_m": val("m1"), "5_x": num(0), "4_T": val("T4"), "t_eta_s": val("eta"), "pu_eta_s": val("etp"),
                                           "co_pr": val("prc"), "hx_zeta1": val("z1"), "hx_pr2": val("pr2"), "6_T": val("T6"), "6_p": val("p6"), "hx_Q": val("Q")})}),
        ("saturation temperature", {**base, **S(**{"3_p": val("p3"), "3_T": val("T3"), "6_m": val("m6"), "5_x": num(0), "5_T": val("T5"), "t_eta_s": val("eta"), "pu_eta_s": val("etp"),
                                                     "co_pr": val("prc"), "hx_pr1": val("pr1"), "hx_pr2": val("pr2"), "6_T": val("T6"), "6_x": num(1), "7_T": val("T7")})}),
        ("subcooled temperature", {**base, **S(**{"2_p": val("p2"), "3_T": val("T3"), "5_m": val("m5"), "5_T": val("T5"), "4_p": val("p4"), "t_eta_s": val("eta"), "pu_eta_s": val("etp"),
                                                    "co_pr": val("prc"), "hx_pr1": val("pr1"), "hx_pr2": val("pr2"), "6_T": val("T6"), "7_p": val("p7"), "7_T": val("T7")})}),
        ("enthalpies", {**base, **S(**{"3_h": val("h3"), "3_p": val("p3"), "bus_P": val("P"), "1_h": val("h1"), "1_p": val("p1"), "4_h": val("h4"), "2_h": val("h2"),
                                         "co_pr": val("prc"), "hx_pr1": val("pr1"), "hx_pr2": val("pr2"), "6_T": val("T6"), "6_p": val("p6"), "hx_kA": val("kA")})}),
    ]


def comb_sets():
    base = {("1", "fluid.N2"): num(7) / num(10), ("1", "fluid.O2"): num(3) / num(10), ("3", "fluid.CH4"): num(1)}
    return COMB, [
        ("excess air", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "1_m": val("m1"), "3_T": val("T3"), "3_p": val("p3"), "cp_pr": val("prc"), "cp_eta_s": val("ec"),
                                         "x_lamb": val("lamb"), "x_pr": val("prx"), "x_eta": val("ex"), "t_eta_s": val("et"), "5_p": val("p5")})}),
        ("heat input", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "4_T": val("T4"), "3_T": val("T3"), "3_p": val("p3"), "cp_pr": val("prc"), "cp_eta_s": val("ec"),
                                         "x_ti": val("ti"), "x_pr": val("prx"), "x_eta": val("ex"), "t_eta_s": val("et"), "5_p": val("p5")})}),
        ("fuel flow", {**base, **S(**{"1_p": val("p1"), "1_T": val("T1"), "1_m": val("m1"), "3_m": val("m3"), "3_T": val("T3"), "3_p": val("p3"), "2_p": val("p2"), "cp_eta_s": val("ec"),
                                        "x_pr": val("prx"), "x_eta": val("ex"), "t_eta_s": val("et"), "5_p": val("p5")})}),
    ]


# -- the abstract network ----------------------------------------------------
def network(P, topo):
    N = make(P, *topo, {})
    assert not N.exc, N.exc
    chem.install(N.I)
    I = N.I.intrinsics

    def ldc(I, a, k, st, fr, fv):
        return new_obj("object", None, path="char:%s.%s" % (a[0], a[1]))
    I["tespy.tools.characteristics.load_default_char"] = ldc
    b = N.I.instantiate(P.classes["Bus"], ["bus"], {}, N.st, N.fr)
    _, exc = call(N, N.meth(b, "add_comps"), N.dict([("comp", N.c["t"])]))
    assert not exc, exc
    _, exc = call(N, N.meth(N.nw, "add_busses"), b)
    assert not exc, exc
    N.bus = b
    N.mode = None

    def inside(st, fr, f, *a):
        """the stand-ins work on the state of the calling statement"""
        old = N.st, N.fr
        N.st, N.fr = st, fr
        f(N, *a)
        N.st, N.fr = old

    def end(N):
        N.set(N.nw, "lin_dep", False)
        N.set(N.nw, "progress", True)
        N.set(N.nw, "converged", N.outcome != "no convergence")

    def loop(I, a, k, st, fr, fv):
        inside(st, fr, iterate)
        inside(st, fr, end)
        if N.outcome == "abort":
            fr.raises.append((st.pc, "ValueError", st.copy()))
            st.pc = False
        return None
    I[NET + "solve_loop"] = loop
    I[NET + "solve_determination"] = lambda *a: None
    I[NET + "process_connections"] = lambda I, a, k, st, fr, fv: inside(st, fr, results, "conns")
    I[NET + "process_components"] = lambda I, a, k, st, fr, fv: inside(st, fr, results, "comps")
    I[NET + "process_busses"] = lambda I, a, k, st, fr, fv: inside(st, fr, results, "bus")
    N.outcome = "complete"
    return N


def containers(N):
    """(object, key, container) of everything the user can specify"""
    for l, c in N.conns.items():
        for k in keys(N, N.get(c, "property_data")):
            yield l, k, N.get(c, k)
    for l, c in N.c.items():
        for k in keys(N, N.get(c, "parameters")):
            yield l, k, N.get(c, k)
    yield "bus", "P", N.get(N.bus, "P")


def iterate(N):
    """the solver changes the variables of the problem"""
    vd = N.get(N.nw, "variables_dict")
    for k in keys(N, vd):
        d = N.I.dict_get(N.st, vd, k)
        o, v = N.I.dict_get(N.st, d, "obj"), N.I.dict_get(N.st, d, "variable")
        if v == "fluid":
            f = N.I.dict_get(N.st, d, "fluid")
            N.I.setitem(N.get(o, "fluid", "val"), f, sym("it%d.%s" % (o.oid, f)), N.st, N.fr)
        elif kind(o) == "ComponentProperties":
            N.set(o, "val", sym("it%d" % o.oid))
        else:
            N.set(N.get(o, v) if isinstance(v, str) else o, "val_SI", sym("it%d.%s" % (o.oid, v)))


def results(N, what):
    """postprocessing writes every value that is not a result of nothing"""
    for o, k, d in list(containers(N)):
        t = "conns" if o in N.conns else "bus" if o == "bus" else "comps"
        if t != what or kind(d) not in ("FluidProperties", "ComponentProperties", "DataContainer", "SimpleDataContainer") or k.endswith("_ref") or k in ("fluid", "fluid_balance"):
            continue
        if kind(d) == "SimpleDataContainer" and what == "comps":
            continue
        converged = N.get(N.nw, "converged") is True
        if converged and N.get(d, "is_set") is True:
            continue
        N.set(d, "val", sym("res.%s.%s" % (o, k)))
        if kind(d) == "FluidProperties" and k not in ("m", "p", "h") and not N.get(d, "is_set") is True:
            N.set(d, "val_SI", sym("resSI.%s.%s" % (o, k)))
    return None


def specify(N, old, new, order=0):
    """user changes the specification from old to new"""
    drop = [x for x in old if x not in new]
    add = list(new)
    steps = [(x, None) for x in drop] + [(x, new[x]) for x in add]
    if order:
        steps = steps[::-1]
    for (o, k), v in steps:
        tgt = N.conns.get(o) or N.c.get(o) or N.bus
        if k.startswith("fluid."):
            kw = {"fluid": N.dict([(k[6:], v)])}
        elif isinstance(v, tuple):
            kw = {k: N.I.instantiate(N.P.classes["Ref"], [N.conns[v[0]], v[1], v[2]], {}, N.st, N.fr)}
        else:
            kw = {k: v}
            if v is not None and isinstance(old.get((o, k)), tuple) and not order:
                # a number replaces a reference
                call(N, N.meth(tgt, "set_attr"), **{k: None})
        if isinstance(v, tuple) and (o, k) in old and not isinstance(old[(o, k)], tuple):
            call(N, N.meth(tgt, "set_attr"), **{k: None})
        _, exc = call(N, N.meth(tgt, "set_attr"), **kw)
        assert not exc, (o, k, exc)


def specified(N):
    out = {}
    for o, k, d in containers(N):
        kd = kind(d)
        if k == "fluid":
            out[(o, k, "is_set")] = tuple(sorted(names(N, N.get(d, "is_set"))))
            for f in names(N, N.get(d, "is_set")):
                out[(o, k, f)] = N.I.dict_get(N.st, N.get(d, "val"), f)
            continue
        s = N.get(d, "is_set")
        if kd in ("GroupedComponentProperties",):
            continue
        out[(o, k, "is_set")] = s
        if s is True and kd in ("FluidProperties", "ComponentProperties", "DataContainer", "SimpleDataContainer") and not k.endswith("_ref"):
            var = kd == "ComponentProperties" and N.get(d, "is_var") is True
            if kd == "ComponentProperties":
                out[(o, k, "is_var")] = N.get(d, "is_var")
            if not var:
                out[(o, k, "val")] = N.get(d, "val")
        if k.endswith("_ref") and s is True:
            r = N.get(d, "ref")
            for a in ("obj", "factor", "delta"):
                out[(o, k, a)] = N.get(r, a)
    return out


def eq(a, b):
    if isinstance(a, R) and isinstance(b, R):
        # fluid property wrappers of two networks are different objects
        return same(a, b) or str(a) == str(b)
    return a == b


def diff(a, b):
    return sorted(((k, a.get(k), b.get(k)) for k in set(a) | set(b) if k not in a or k not in b or not eq(a[k], b[k])), key=str)


def solve(N, P, outcome):
    N.outcome = "abort" if outcome == "abort" else outcome
    _, exc = call(N, N.meth(N.nw, "solve"), "design")
    N.st.pc = True
    return exc


def label(N, o):
    for t in (N.conns, N.c):
        for l, c in t.items():
            if isinstance(o, Ref) and c.oid == o.oid:
                return l
    for o2, k, d in containers(N):
        if isinstance(o, Ref) and d.oid == o.oid:
            return o2 + "." + k
    return str(o)


def clean(N, v):
    """starting values and object numbers differ between histories: only what is fixed by the specification is compared"""
    return v


def problem(N):
    """the system that is to be solved (taken when the solver starts)"""
    out = {}
    vd = N.get(N.nw, "variables_dict")
    cols = []
    for k in keys(N, vd):
        d = N.I.dict_get(N.st, vd, k)
        f = N.I.dict_get(N.st, d, "fluid") if "fluid" in keys(N, d) else None
        out[("variable", label(N, N.I.dict_get(N.st, d, "obj")), str(N.I.dict_get(N.st, d, "variable")), str(f))] = True
        cols.append(k)
    for a in ("num_conn_vars", "num_comp_vars", "num_comp_eq", "num_conn_eq", "num_bus_eq"):
        out[("count", a)] = N.get(N.nw, a)
    for l, c in N.conns.items():
        for q in ("m", "p", "h"):
            d = N.get(c, q)
            v = N.get(d, "is_var")
            out[("variable quantity", l, q)] = v
            if v is False:
                out[("fixed value", l, q)] = N.get(d, "val_SI")
        f = N.get(c, "fluid")
        iv = names(N, N.get(f, "is_var"))
        out[("variable mass fractions", l)] = tuple(sorted(iv))
        for x in keys(N, N.get(f, "val")):
            if x not in iv:
                out[("fixed mass fraction", l, x)] = N.I.dict_get(N.st, N.get(f, "val"), x)
        e = N.get(c, "equations")
        out[("equations", l)] = tuple(sorted(str(N.I.dict_get(N.st, e, k)) for k in keys(N, e)))
        out[("number of equations", l)] = N.get(c, "num_eq")
        for k in keys(N, N.get(c, "property_data")):
            d = N.get(c, k)
            if k not in ("m", "p", "h", "fluid", "fluid_balance") and not k.endswith("_ref") and N.get(d, "is_set") is True:
                out[("specified value", l, k)] = N.get(d, "val_SI")
    for l, c in N.c.items():
        out[("number of equations", l)] = N.get(c, "num_eq")
        out[("number of variables", l)] = N.get(c, "num_vars")
        for k in keys(N, N.get(c, "parameters")):
            d = N.get(c, k)
            s = N.get(d, "is_set")
            out[("applied", l, k)] = s
            if s is True and kind(d) == "ComponentProperties":
                out[("variable", l, k)] = N.get(d, "is_var")
                if N.get(d, "is_var") is False:
                    out[("value", l, k)] = N.get(d, "val")
    out[("applied", "bus", "P")] = N.get(N.bus, "P", "is_set")
    if N.get(N.bus, "P", "is_set") is True:
        out[("value", "bus", "P")] = N.get(N.bus, "P", "val")
    return out


def observed(N):
    """problem at the start of the solver"""
    N.seen = None

    def det(I, a, k, st, fr, fv):
        old = N.st
        N.st = st
        N.seen = problem(N)
        N.st = old
        return None
    N.I.intrinsics[NET + "solve_determination"] = det


def columns(ctx, N, key, w):
    pass


def histories(ctx, P):
    w = at(P, "initialise")
    sets = [gas_sets(), steam_sets(), comb_sets()]
    for topo, scen in sets:
        tag = {id(GAS): "gas", id(STEAM): "steam", id(COMB): "combustion"}[id(topo)]
        fresh = {}
        for n, s in scen:
            key = "%s|%s" % (tag, n)
            with ctx.guard(key + "|fresh"):
                N = network(P, topo)
                observed(N)
                specify(N, {}, s)
                before = specified(N)
                exc = solve(N, P, "complete")
                ctx.check(not exc, key + "|solved", w, "the calculation with the specification '%s' is refused: %s" % (n, exc))
                fresh[n] = N.seen
                compare(ctx, before, specified(N), key + "|kept", w, "a calculation changes %s")
                ctx.count("specification sets")
        for n, s in scen:
            for n2, s2 in scen:
                for outcome in ("complete", "abort", "no convergence"):
                    if outcome != "complete" and n2 != scen[(scen.index((n, s)) + 1) % len(scen)][0] and n2 != n:
                        continue
                    key = "%s|%s -> %s after %s" % (tag, n, n2, outcome)
                    if n2 not in fresh or fresh[n2] is None:
                        continue
                    with ctx.guard(key):
                        N = network(P, topo)
                        observed(N)
                        specify(N, {}, s)
                        before = specified(N)
                        exc = solve(N, P, outcome)
                        ctx.check(exc == (["ValueError"] if outcome == "abort" else []), key + "|first", w, "the first calculation ends with %s" % exc)
                        compare(ctx, before, specified(N), key + "|kept", at(P, "solve"), "a calculation (%s) changes %%s" % outcome)
                        specify(N, s, s2, order=0)
                        exc = solve(N, P, "complete")
                        if not ctx.check(not exc, key + "|second", w, "the calculation with '%s' after a calculation with '%s' is refused: %s" % (n2, n, exc)):
                            continue
                        ctx.count("histories")
                        d = diff(fresh[n2], N.seen)
                        ctx.check(not d, key, w, "after a calculation with the specification '%s' (%s) the problem for '%s' differs from the one of a new network: %s"
                                  % (n, outcome, n2, "; ".join("%s: new %s, here %s" % (" ".join(map(str, k)), a, b) for k, a, b in d[:3])))


def compare(ctx, before, after, key, w, text):
    d = diff(before, after)
    ctx.check(not d, key, w, text % ", ".join("%s of %s.%s from %s to %s" % (k[2], k[0], k[1], a, b) for k, a, b in d[:4]))


def run(ctx):
    ctx.rule = "the set-up of the problem is a function of the current specification; specifications are equal before and after every calculation"
    P = program(STUBS)
    ctx.units.update(P.modules[m].rel for m in ("tespy.networks.network", "tespy.components.component", "tespy.connections.connection"))
    histories(ctx, P)
    ctx.floor("histories", ctx.counts.get("histories", 0), 40)
    return EXPL
