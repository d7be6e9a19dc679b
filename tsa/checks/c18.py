"""Totals of the exergy analysis: every component and bus is accounted for
once, and the flows between component groups conserve exergy."""
from ..common import program, where, same, isnan
from ..interp import OBJS, Ref, num, sym, new_obj, FuncV, MISSING
from ..poly import R
from ..dd import literals
from ..net import NetModel
from .c08 import keys
from .c11 import make, call
from .c14 import spec_

EXPL = ("ExergyAnalysis is interpreted on networks built through their constructors; the exergy of every stream, the exergy balance and bus "
        "exergy of every component and the efficiency of every bus contribution are symbols. For several assignments of busses to fuel, "
        "product, loss and internal use and several component groups, all tables (components, busses, aggregation, network, groups, flows "
        "between groups, links of the diagram) are compared with their definitions, and with symbols that satisfy the component balances "
        "the network and group balances must close identically.")
STUBS = ("pandas", "nparr")
MOD = "tespy.tools.analyses"
CATS = ("chemical", "physical", "massless")

COMPS = {"so": "Source", "si": "Sink", "a": "HeatExchanger", "b": "HeatExchanger", "p": "Pump", "t": "Turbine", "t2": "Turbine",
         "cd": "SimpleHeatExchanger", "cc": "CycleCloser"}
TOPO = [("so", "out1", "a", "in1", "g1"), ("a", "out1", "b", "in1", "g2"), ("b", "out1", "si", "in1", "g3"),
        ("cc", "out1", "p", "in1", "w1"), ("p", "out1", "a", "in2", "w2"), ("a", "out2", "b", "in2", "w3"), ("b", "out2", "t", "in1", "w4"),
        ("t", "out1", "t2", "in1", "w5"), ("t2", "out1", "cd", "in1", "w6"), ("cd", "out1", "cc", "in1", "w7")]
FL = {"g1": {"N2": num(7) / num(10), "O2": num(3) / num(10)}, "w1": {"H2O": num(1)}}
CAT = {l: "combustion-gas" if l[0] == "g" else "two-phase-fluid" for _, _, _, _, l in TOPO}

# exergy the component exchanges with a bus, by category
BUSEX = {"so": ("chemical", "physical"), "si": ("chemical", "physical"), "p": ("massless",), "t": ("massless",), "t2": ("massless",), "cd": ("massless",)}

# {role: {bus: {component: base}}}
CASES = {
    "internal drive": {"E_F": {"fuel": {"so": "bus"}}, "E_P": {"power": {"t": "component"}}, "internal": {"drive": {"t2": "component", "p": "bus"}},
                       "E_L": {"loss": {"si": "component", "cd": "component"}}},
    "consumption on the product bus": {"E_F": {"fuel": {"so": "bus"}}, "E_P": {"power": {"t": "component", "p": "bus", "t2": "component"}, "heat": {"cd": "component"}},
                                       "internal": {}, "E_L": {"loss": {"si": "component"}}},
    "return on the fuel bus": {"E_F": {"fuel": {"so": "bus", "si": "component"}, "electricity": {"p": "bus"}},
                               "E_P": {"power": {"t": "component", "t2": "component"}}, "internal": {}, "E_L": {"loss": {"cd": "component"}}},
    "input from the ambient": {"E_F": {"heat": {"cd": "bus"}}, "E_P": {"power": {"t": "component"}}, "internal": {"drive": {"p": "bus", "t2": "component"}},
                               "E_L": {"ambient": {"so": "bus", "si": "component"}}},
    "no losses": {"E_F": {"fuel": {"so": "bus", "p": "bus", "cd": "bus"}}, "E_P": {"power": {"t": "component", "t2": "component"}, "gas": {"si": "component"}},
                  "internal": {}, "E_L": {}},
    "gas leaves unaccounted": {"E_F": {"fuel": {"so": "bus"}, "electricity": {"p": "bus"}}, "E_P": {"power": {"t": "component", "t2": "component"}}, "internal": {},
                               "E_L": {"loss": {"cd": "component"}}},
}
QUICK = ("internal drive", "no losses", "gas leaves unaccounted")
GROUPS = {"single components": {}, "boiler and turbines": {"a": "boiler", "b": "boiler", "t": "turbine", "t2": "turbine"},
          "one group": {k: "plant" for k in COMPS}, "mixed": {"a": "first", "t": "first", "b": "second", "t2": "second", "p": "cycle", "cd": "cycle"},
          "start and end": {"a": "gas side", "si": "gas side"}}


def nonzero(N, e):
    N.I.axioms.update(literals(N.I.truth(e, N.st)))
    N.I.axioms.update(literals(spec_(N, "x != 0", x=e)))


def network(P, case, groups, chem, balanced):
    N = make(P, COMPS, TOPO, FL)
    assert not N.exc, N.exc
    I = N.I
    for c, g in groups.items():
        _, exc = call(N, N.meth(N.c[c], "set_attr"), fkt_group=g)
        assert not exc, exc
    label = {o.oid: l for l, o in N.c.items()}
    clabel = {o.oid: l for l, o in N.conns.items()}
    N.ambient = []
    N.bases = {c: base for role in case.values() for b in role.values() for c, base in b.items()}

    def physical(I, a, k, st, fr, fv):
        o = a[0]
        l = clabel[o.oid]
        N.ambient.append(tuple(a[1:]) + tuple(k.values()))
        for n in ("ex_physical", "ex_therm", "ex_mech", "Ex_physical", "Ex_therm", "Ex_mech"):
            st.heap[(o.oid, "a", n)] = sym("%s[%s]" % (n, l))

    def chemical(I, a, k, st, fr, fv):
        o = a[0]
        for n in ("ex_chemical", "Ex_chemical"):
            st.heap[(o.oid, "a", n)] = sym("%s[%s]" % (n, clabel[o.oid])) if chem else num(0)

    N.values = {}
    for l in COMPS:
        bus = {c: sym("Ebus[%s,%s]" % (l, c)) if c in BUSEX.get(l, ()) and (chem or c != "chemical") and l in N.bases else num(0) for c in CATS}
        if balanced and l == "p" and "p" in case["internal"].get("drive", {}):
            # the balance of the internal bus
            bus["massless"] = sym("Ebus[t2,massless]") * eta("t2", "drive") * eta("p", "drive")
        for v in bus.values():
            if not v.is_const():
                nonzero(N, v)
        e_f, e_d = sym("EF[%s]" % l), sym("ED[%s]" % l)
        e_p = sym("EP[%s]" % l)
        if balanced:
            e_d = num(0)
            for s, _, t, _, c in TOPO:
                ex = sym("Ex_physical[%s]" % c) + (sym("Ex_chemical[%s]" % c) if chem else num(0))
                e_d = e_d + (ex if t == l else num(0)) - (ex if s == l else num(0))
            for v in bus.values():
                e_d = e_d + v * num(1 if N.bases.get(l) == "bus" else -1)
            e_p = e_f - e_d
        elif l in ("a", "si"):
            # no destruction
            e_p, e_d = e_f, num(0)
        elif l == "cc":
            # no exergy balance is defined for such components
            e_f = e_p = e_d = sym("nan")
        N.values[l] = {"E_F": e_f, "E_P": e_p, "E_D": e_d, "epsilon": sym("eps[%s]" % l), "bus": bus}

    def balance(I, a, k, st, fr, fv):
        o = a[0]
        v = N.values[label[o.oid]]
        N.T0 = a[1]
        for n in ("E_F", "E_P", "E_D", "epsilon"):
            st.heap[(o.oid, "a", n)] = v[n]
        st.heap[(o.oid, "a", "E_bus")] = I.new_dict(st, list(v["bus"].items()))

    CON = "tespy.connections.connection.Connection."
    I.intrinsics[CON + "get_physical_exergy"] = physical
    I.intrinsics[CON + "get_chemical_exergy"] = chemical
    for c in P.classes.values():
        if "exergy_balance" in c.methods:
            I.intrinsics["%s.%s.exergy_balance" % (c.module.name, c.name)] = balance
        if "calc_bus_efficiency" in c.methods:
            I.intrinsics["%s.%s.calc_bus_efficiency" % (c.module.name, c.name)] = lambda I, a, k, st, fr, fv: eta(label[a[0].oid], N.get(a[1], "label", st=st))
    I.intrinsics[MOD + ".categorize_fluids"] = lambda I, a, k, st, fr, fv: CAT[clabel[a[0].oid]]
    I.intrinsics["pandas._missing"] = lambda I, a, k, st, fr, fv: isinstance(a[0], R) and a[0] == sym("nan")
    N.errors = []
    I.intrinsics["tespy.tools.logger.error"] = lambda I, a, k, st, fr, fv: N.errors.append(st.pc)
    N.busses = {}
    for role, bs in case.items():
        for b, comps in bs.items():
            o = I.instantiate(P.classes["Bus"], [b], {}, N.st, N.fr)
            for c, base in comps.items():
                _, exc = call(N, N.meth(o, "add_comps"), N.dict([("comp", N.c[c]), ("base", base)]))
                assert not exc, exc
            N.busses[b] = o
    _, exc = call(N, N.meth(N.nw, "add_busses"), *N.busses.values())
    assert not exc, exc
    # one analysis uses other units than SI
    N.st.heap[(N.nw.oid, "a", "p_unit")] = "bar"
    N.st.heap[(N.nw.oid, "a", "T_unit")] = "C"
    return N


def eta(c, b):
    return sym("eta[%s,%s]" % (c, b))


def analysis(N, P, case):
    fr = N.fr
    n0 = len(fr.raises)
    kw = {role: N.list(*[N.busses[b] for b in case[role]]) for role in ("E_F", "E_P", "E_L")}
    kw["internal_busses"] = N.list(*[N.busses[b] for b in case["internal"]])
    ean = N.I.instantiate(P.classes["ExergyAnalysis"], [N.nw], kw, N.st, fr)
    exc = [n for pc, n, _ in fr.raises[n0:] if pc is not False]
    del fr.raises[n0:]
    return ean, exc


# -- tables ----------------------------------------------------------------
def table(N, t):
    """{row: {column: value}}"""
    rows = N.get(t, "_rows")
    out = {}
    for k in keys(N, rows):
        r = N.I.dict_get(N.st, rows, k)
        out[k] = {c: N.I.dict_get(N.st, r, c) for c in keys(N, r)}
    return out


def series(N, s):
    d = N.get(s, "_d")
    return {k: N.I.dict_get(N.st, d, k) for k in keys(N, d)}


def eq(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, R) and isinstance(b, R) and nanlike(a) and nanlike(b):
        return True
    return same(a, b)


def nanlike(x):
    return any(a.kind == "sym" and a.args[0] == "nan" for a in x.atoms())


def expected(N, case, groups, chem):
    v = N.values
    grp = {c: groups.get(c, c) for c in COMPS}
    busof = {c: (role, b, base) for role, bs in case.items() for b, cs in bs.items() for c, base in cs.items()}
    sk = {}
    for b in ("E_P", "E_F", "E_D", "E_L"):
        sk[b] = {}
    for role in ("internal", "E_F", "E_P", "E_L"):
        for b in case[role]:
            sk[b] = {}
    for c in COMPS:
        sk.setdefault(grp[c], {})

    def put(s, t, cat, vals):
        row = sk[s].setdefault((t, cat), {k: num(0) for k in CATS})
        for k, x in vals.items():
            row[k] = row[k] + x
    tot = {k: num(0) for k in ("E_F", "E_P", "E_L")}
    bus = {}
    for c, (role, b, base) in busof.items():
        e = sum(v[c]["bus"].values(), num(0))
        n = eta(c, b)
        if base == "bus":
            row = {"E_P": e, "E_F": e / n}
            given, sign = e / n, {"E_F": 1, "E_P": -1, "E_L": -1}
        else:
            row = {"E_F": e, "E_P": e * n}
            given, sign = e * n, {"E_F": -1, "E_P": 1, "E_L": 1}
        row["E_D"] = row["E_F"] - row["E_P"]
        row["base"], row["group"] = base, grp[c]
        bus[c] = row
        if role in tot:
            tot[role] = tot[role] + given * num(sign[role])
        for k, x in v[c]["bus"].items():
            if x.is_zero():
                continue
            cat = "work" if k == "massless" else CAT[[l for s, _, t, _, l in TOPO if (s if base == "bus" else t) == c][0]]
            if base == "bus":
                put(b, grp[c], cat, {k: x / n})
            else:
                put(grp[c], b, cat, {k: x * n})
    ed = sum((v[c]["E_D"] for c in COMPS if not nanlike(v[c]["E_D"])), num(0)) + sum((r["E_D"] for r in bus.values()), num(0))
    ab = lambda x: spec_(N, "abs(x)", x=x)
    div = lambda x, y: spec_(N, "x / y", x=x, y=y)
    net = {"E_F": ab(tot["E_F"]), "E_P": ab(tot["E_P"]), "E_L": tot["E_L"], "E_D": ed}
    net["epsilon"] = div(net["E_P"], net["E_F"])
    comp, agg = {}, {}
    for c in COMPS:
        comp[c] = {k: v[c][k] for k in ("E_F", "E_P", "E_D")}
        agg[c] = dict(comp[c])
        comp[c]["group"] = agg[c]["group"] = grp[c]
        if c in bus:
            agg[c]["E_D"] = agg[c]["E_D"] + bus[c]["E_D"]
            if bus[c]["base"] == "bus":
                agg[c]["E_F"] = agg[c]["E_F"] + bus[c]["E_D"]
            else:
                agg[c]["E_P"] = agg[c]["E_P"] - bus[c]["E_D"]
    for d in (comp, agg, bus):
        for r in d.values():
            r["y_Dk"], r["y*_Dk"], r["epsilon"] = div(r["E_D"], net["E_F"]), div(r["E_D"], net["E_D"]), div(r["E_P"], r["E_F"])
    # streams between groups
    for s, _, t, _, l in TOPO:
        if grp[s] != grp[t]:
            put(grp[s], grp[t], CAT[l], {"physical": sym("Ex_physical[%s]" % l), "chemical": sym("Ex_chemical[%s]" % l) if chem else num(0)})
    inp = lambda g, k: sum((row[k] for d in sk.values() for (t, _), row in d.items() if t == g), num(0))
    out = lambda g, k: sum((row[k] for row in sk[g].values()), num(0))
    outs = {}
    for role in ("E_F", "E_P", "E_L"):
        for b in case[role]:
            outs[b] = {k: (out(b, k) - inp(b, k)) * num(1 if role == "E_F" else -1) for k in CATS}
    gd = {}
    for g in set(grp.values()):
        gd[g] = {"E_in": sum((inp(g, k) for k in CATS), num(0)), "E_D": sum((agg[c]["E_D"] for c in COMPS if grp[c] == g and not nanlike(agg[c]["E_D"])), num(0))}
        gd[g]["flows"] = sum((out(g, k) for k in CATS), num(0))
    for role in ("E_F", "E_P", "E_L"):
        for b in case[role]:
            if role == "E_F":
                sk["E_F"][(b, "E_F")] = outs[b]
            else:
                sk[b][(role, role)] = outs[b]
    for g in sk:
        sk[g][("E_D", "E_D")] = {"chemical": num(0), "physical": num(0), "massless": gd[g]["E_D"] if g in gd else num(0)}
    for g, r in gd.items():
        r["E_out"] = r["E_in"] - r["E_D"]
        r["y_Dk"], r["y*_Dk"] = div(r["E_D"], net["E_F"]), div(r["E_D"], net["E_D"])
    return {"network": net, "component": comp, "bus": bus, "aggregation": agg, "group": gd, "flows": sk}


def rows(ctx, key, w, got, want, what, cols=None):
    ctx.check(set(got) == set(want), "%s: rows of the %s data" % (key, what), w, "has %s, expected %s" % (sorted(map(str, got)), sorted(map(str, want))))
    for r in want:
        if r not in got:
            continue
        for c in (cols or want[r]):
            if c not in want[r]:
                continue
            g = got[r].get(c)
            ctx.check(g is not None and g is not MISSING and eq(g, want[r][c]), "%s: %s of %s in the %s data" % (key, c, " to ".join(map(str, r)) if isinstance(r, tuple) else r, what), w,
                      "is %s, expected %s" % (short(g), short(want[r][c])))


def short(v):
    s = str(v)
    return s if len(s) < 160 else s[:160] + "..."


def at(P, name):
    c = P.classes["ExergyAnalysis"]
    f = c.find(name)
    return where(FuncV(f[1], f[0].module, f[0], None)) if f else c.module.rel


def results(ctx, P):
    n = 0
    for cname, case in CASES.items():
        for gname, groups in GROUPS.items():
            for chem in (False, True):
                if not chem and gname != "single components":
                    continue
                if ctx.tier == "quick" and gname not in ("single components", "mixed") and cname not in QUICK:
                    continue
                key = "%s, %s%s" % (cname, gname, ", chemical exergy" if chem else "")
                n += 1
                with ctx.guard(key):
                    one(ctx, P, key, case, groups, chem, twice=(gname == "single components" and not chem))
    ctx.count("analyses", n)
    ctx.floor("analyses", n, 20)


def one(ctx, P, key, case, groups, chem, twice):
    w = at(P, "analyse")
    bad = len(ctx.bad)
    N = network(P, case, groups, chem, False)
    ean, exc = analysis(N, P, case)
    ctx.check(not exc, "%s: the analysis is accepted" % key, at(P, "__init__"), "raises %s" % exc)
    if exc:
        return
    table0 = N.dict([("x", num(1))]) if chem else None
    for again in range(2 if twice else 1):
        k = key + (", second analysis" if again else "")
        del N.ambient[:]
        del N.errors[:]
        _, exc = call(N, N.meth(ean, "analyse"), pamb=sym("pamb"), Tamb=sym("Tamb"), Chem_Ex=table0)
        ctx.check(not exc, k + ": completes", w, "raises %s" % exc)
        if exc:
            return
        want = expected(N, case, groups, chem)
        p0, T0 = sym("pamb") * num(100000), sym("Tamb") + num(27315) / num(100)
        ctx.check(len(N.ambient) == len(TOPO) and all(eq(a[0], p0) and eq(a[1], T0) for a in N.ambient), k + ": ambient state of the streams", w, "is %s" % (N.ambient[:1],))
        ctx.check(eq(N.T0, T0), k + ": ambient temperature of the components", w, "is %s" % N.T0)
        got = series(N, N.get(ean, "network_data"))
        rows(ctx, k, w, {"network": got}, {"network": want["network"]}, "network")
        for what in ("component", "bus", "aggregation"):
            rows(ctx, k, at(P, "evaluate_busses") if what == "bus" else w, table(N, N.get(ean, what + "_data")), want[what], what)
        wc = {l: {"e_PH": sym("ex_physical[%s]" % l), "e_T": sym("ex_therm[%s]" % l), "e_M": sym("ex_mech[%s]" % l), "E_PH": sym("Ex_physical[%s]" % l),
                  "E_T": sym("Ex_therm[%s]" % l), "E_M": sym("Ex_mech[%s]" % l)} for l in CAT}
        if chem:
            for l in wc:
                wc[l].update({"e_CH": sym("ex_chemical[%s]" % l), "E_CH": sym("Ex_chemical[%s]" % l)})
        rows(ctx, k, w, table(N, N.get(ean, "connection_data")), wc, "connection")
        wg = at(P, "create_group_data")
        rows(ctx, k, wg, table(N, N.get(ean, "group_data")), want["group"], "group", ("E_in", "E_out", "E_D", "y_Dk", "y*_Dk"))
        sk = N.get(ean, "sankey_data")
        ctx.check(set(keys(N, sk)) == set(want["flows"]), k + ": nodes of the flows", wg, "has %s" % sorted(keys(N, sk)))
        for g in want["flows"]:
            if g in keys(N, sk):
                rows(ctx, k + ", from " + g, wg, table(N, N.I.dict_get(N.st, sk, g)), want["flows"][g], "flow")
        # the open balance is reported
        res = spec_(N, "abs(a - b - c - d)", a=want["network"]["E_F"], b=want["network"]["E_P"], c=want["network"]["E_D"], d=want["network"]["E_L"])
        tol = spec_(N, "x >= 1e-3", x=res)
        from ..dd import OR
        rep = False
        for c in N.errors:
            rep = OR(rep, c)
        ctx.check(same(rep, tol), k + ": an open balance is reported", w, "reported if %s, expected if %s" % (short(rep), short(tol)))
    if len(ctx.bad) == bad:
        # flows that differ are reported above
        links(ctx, P, N, ean, key, want)


def links(ctx, P, N, ean, key, want):
    """every flow above the threshold appears once as link of its nodes"""
    w = at(P, "generate_plotly_sankey_input")
    fl = {g: dict(d) for g, d in want["flows"].items()}
    tot = lambda row: spec_(N, "0 + abs(a) + abs(b) + abs(c)", a=row["chemical"], b=row["physical"], c=row["massless"])

    def positive(row):
        zero = True
        for k in CATS:
            if row[k].is_zero():
                continue
            zero = False
            N.I.axioms.update(literals(spec_(N, "x > 0", x=row[k])))
            N.I.axioms.update(literals(spec_(N, "x >= 0", x=row[k])))
            N.I.axioms.update(literals(spec_(N, "x == 0", x=row[k])) and {})
        return not zero
    for g in list(fl):
        for k in list(fl[g]):
            if positive(fl[g][k]):
                t = tot(fl[g][k])
                N.I.axioms.update(literals(spec_(N, "t >= 0.001", t=t)))
            else:
                del fl[g][k]
    # groups passing on one input to one output are left out
    res = set("E_F E_P E_D E_L".split()) | set(N.busses)
    done = False
    while not done:
        done = True
        for g in list(fl):
            if g in res:
                continue
            src = [s for s in fl if s != g and any(t == g for t, _ in fl[s])]
            if len(src) == 1 and len({t for t, _ in fl[g]}) == 1:
                for k, row in fl[g].items():
                    old = fl[src[0]].get(k)
                    fl[src[0]][k] = row if old is None else {c: old[c] + row[c] for c in CATS}
                    positive(fl[src[0]][k])
                for k in [k for k in fl[src[0]] if k[0] == g]:
                    del fl[src[0]][k]
                del fl[g]
                done = False
                break
            if not src and not fl[g]:
                del fl[g]
    v, exc = call(N, N.meth(ean, "generate_plotly_sankey_input"))
    ctx.check(not exc, key + ": links", w, "raises %s" % exc)
    if exc:
        return
    d, nodes = (v if isinstance(v, tuple) else N.st.heap[(v.oid, "#")])
    nodes = list(N.st.heap[(nodes.oid, "#")])
    col = {k: list(N.st.heap[(N.I.dict_get(N.st, d, k).oid, "#")]) for k in ("source", "target", "value")}
    ctx.check(len({len(c) for c in col.values()}) == 1, key + ": columns of the links", w, "have different lengths")
    got = {}
    for s, t, x in zip(col["source"], col["target"], col["value"]):
        e = (nodes[int(s.const_val())], nodes[int(t.const_val())])
        got.setdefault(e, []).append(x)
    exp = {}
    for s in fl:
        for (t, _), row in fl[s].items():
            for k in CATS:
                if not row[k].is_zero():
                    exp.setdefault((s, t), []).append(row[k])
    for e in sorted(set(got) | set(exp)):
        a, b = list(got.get(e, [])), exp.get(e, [])
        ok = len(a) == len(b)
        for x in b:
            hit = [i for i, y in enumerate(a) if eq(x, y)]
            if not hit:
                ok = False
                break
            a.pop(hit[0])
        ctx.check(ok, "%s: links from %s to %s" % ((key,) + e), w, "are %s, expected %s" % (short(got.get(e)), short(exp.get(e))))


def conservation(ctx, P):
    """with closed component balances the network and group balances close"""
    for cname, case in CASES.items():
        if cname == "gas leaves unaccounted":
            continue
        for gname, groups in GROUPS.items():
            if ctx.tier == "quick" and gname in ("one group", "start and end") and cname not in QUICK:
                continue
            key = "%s, %s: closed balances" % (cname, gname)
            with ctx.guard(key):
                w = at(P, "analyse")
                N = network(P, case, groups, True, True)
                ean, exc = analysis(N, P, case)
                _, exc = call(N, N.meth(ean, "analyse"), pamb=sym("pamb"), Tamb=sym("Tamb"), Chem_Ex=N.dict([("x", num(1))]))
                if exc:
                    ctx.violate(key + ": completes", w, "raises %s" % exc)
                    continue
                net = series(N, N.get(ean, "network_data"))
                for k in ("E_F", "E_P"):
                    # supply and product are positive
                    t = total(N, case, k)
                    if eq(net[k], spec_(N, "abs(x)", x=t)):
                        net[k] = t
                r = spec_(N, "a - b - c - d", a=net["E_F"], b=net["E_P"], c=net["E_D"], d=net["E_L"])
                ctx.check(isinstance(r, R) and r.is_zero(), key + ": balance of the network", w, "residual %s" % short(r))
                g = table(N, N.get(ean, "group_data"))
                sk = N.get(ean, "sankey_data")
                ed = num(0)
                for n, row in g.items():
                    out = num(0)
                    for (t, c), x in table(N, N.I.dict_get(N.st, sk, n)).items():
                        if t != "E_D":
                            out = out + sum(x.values(), num(0))
                    # streams within the group are not part of the flows
                    ctx.check(eq(row["E_out"], out), "%s: balance of group %s" % (key, n), at(P, "create_group_data"), "output %s, flows to other groups %s" % (short(row["E_out"]), short(out)))
                    ed = ed + row["E_D"]
                ctx.check(eq(ed, net["E_D"]), key + ": destruction of the groups", at(P, "create_group_data"), "sums up to %s, network %s" % (short(ed), short(net["E_D"])))


def total(N, case, role):
    s = num(0)
    for b, cs in case[role].items():
        for c, base in cs.items():
            e = sum(N.values[c]["bus"].values(), num(0))
            s = s + (e / eta(c, b) if base == "bus" else e * eta(c, b)) * num(1 if (base == "bus") == (role == "E_F") else -1)
    return s


def refusals(ctx, P):
    base = CASES["internal drive"]
    w = at(P, "__init__")
    for k in ("E_F", "E_P"):
        with ctx.guard("no " + k):
            N = network(P, base, {}, False, False)
            _, exc = analysis(N, P, dict(base, **{k: {}}))
            ctx.check("TESPyNetworkError" in exc, "an analysis without %s is refused" % k, w, "raises %s" % exc)
            N.st.pc = True
    for k in ("E_F", "E_P", "E_D", "E_L"):
        with ctx.guard("bus " + k):
            case = dict(base, internal={k: base["internal"]["drive"]})
            N = network(P, case, {}, False, False)
            _, exc = analysis(N, P, case)
            ctx.check("ValueError" in exc, "a bus labelled %s is refused" % k, w, "raises %s" % exc)
    w = at(P, "analyse")
    for g in ("E_F", "E_P", "E_D", "E_L", "fuel", "power", "drive", "loss"):
        with ctx.guard("group " + g):
            N = network(P, base, {"b": g}, False, False)
            ean, exc = analysis(N, P, base)
            _, exc = call(N, N.meth(ean, "analyse"), pamb=sym("pamb"), Tamb=sym("Tamb"))
            ctx.check("ValueError" in exc, "a component group labelled %s is refused" % g, w, "raises %s" % exc)
    for r1 in ("E_F", "E_P", "internal", "E_L"):
        for r2 in ("E_F", "E_P", "internal", "E_L"):
            with ctx.guard("two busses"):
                case = {r: dict(v) for r, v in base.items()}
                case[r1]["first"] = {"b": "component"}
                case[r2]["second"] = {"b": "bus"}
                N = network(P, case, {}, False, False)
                ean, exc = analysis(N, P, case)
                _, exc = call(N, N.meth(ean, "analyse"), pamb=sym("pamb"), Tamb=sym("Tamb"))
                ctx.check("TESPyNetworkError" in exc, "a component on a bus of %s and a bus of %s is refused" % (r1, r2), at(P, "evaluate_busses"), "raises %s" % exc)


def categories(ctx, P):
    """kind of fluid of a stream"""
    m = P.modules[MOD]
    f = FuncV(m.defs["categorize_fluids"][1], m, None, None)
    w = where(f)
    GAS, OTHER, INC = "CH4", "R134a", "INCOMP::Water"
    n = 0
    for fl, want in (((GAS,), "combustion-gas"), ((OTHER,), "two-phase-fluid"), ((INC,), "incompressible"), ((GAS, OTHER), "combustion-gas"),
                     ((OTHER, GAS), "combustion-gas"), ((OTHER, "R245fa"), "non-combustion-gas"), ((OTHER, "-" + GAS, "R245fa"), "non-combustion-gas"),
                     ((INC, GAS), "combustion-gas"), ((INC, OTHER), "non-combustion-gas"), ((OTHER, "-" + GAS), "two-phase-fluid")):
        key = "category of a stream of %s" % ", ".join("traces of " + x[1:] if x[0] == "-" else x for x in fl)
        with ctx.guard(key):
            N = NetModel(P)
            k = len([x for x in fl if x[0] != "-"])
            frac = {x.lstrip("-"): num(0) if x[0] == "-" else num(1) / num(k) for x in fl}
            c = N.fake("c")
            fluid = N.fake("fluid", val=N.dict(list(frac.items())))
            N.set(c, "fluid", fluid)
            N.set(c, "fluid_data", N.dict([(x, N.dict([("mass_fraction", v), ("wrapper", sym("w" + x))])) for x, v in frac.items()]))

            def alias(I, a, k, st, fr, fv):
                if a[0].startswith("INCOMP"):
                    fr.raises.append((st.pc, "RuntimeError", st.copy()))
                    st.pc = False
                    return None
                return a[0] == GAS
            N.I.intrinsics["tespy.tools.helpers.fluidalias_in_list"] = alias
            v, exc = call(N, f, c)
            ctx.check(v == want and not exc, key, w, "is %s %s, expected %s" % (v, exc or "", want))
            n += 1
    ctx.floor("fluid categories", n, 8)


def run(ctx):
    ctx.rule = "the tables of the exergy analysis equal their definitions; closed component balances give closed network and group balances"
    P = program(STUBS)
    ctx.units.add(P.modules[MOD].rel)
    results(ctx, P)
    conservation(ctx, P)
    refusals(ctx, P)
    categories(ctx, P)
    return EXPL
