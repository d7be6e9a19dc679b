"""Topology reduction: branches of common mass flow and composition, and the
specifications before and after a calculation."""
from ..common import program, concrete, where, same
from ..interp import OBJS, Ref, num, sym, MISSING, FuncV, ClassV, Frame, _unhk
from ..poly import R
from .c08 import setup, build, keys, image, show

EXPL = ("Networks of every component class (and of the combinations of splitters, merges, separators, drums, cycle closers, engines and "
        "electrochemical reactors) are built through their constructors and reduced by the interpreted topology code: the branches of "
        "common mass flow, of common composition and of common fluids are compared with the partition the component's conservation laws "
        "imply, for several orders of the same connections; the presolve steps are evaluated for every pattern of mass flow and "
        "composition specifications in a branch, and the specifications of all connections are compared before and after solve, "
        "including calculations aborted at every stage.")
STUBS = ("pandas", "nparr")
NET = "tespy.networks.network.Network."
CON = "tespy.connections.connection.Connection."

# which inlet passes to which outlet: m - same mass flow and composition,
# f - same composition, w - the fluids of the inlet occur at the outlet
SPECIAL = {
    "Source": ((), ("out1",), {}), "Sink": (("in1",), (), {}),
    "CycleCloser": (("in1",), ("out1",), {}),
    "Splitter": (("in1",), ("out1", "out2"), {("in1", "out1"): "f", ("in1", "out2"): "f"}),
    "Separator": (("in1",), ("out1", "out2"), {("in1", "out1"): "w", ("in1", "out2"): "w"}),
    "Merge": (("in1", "in2"), ("out1",), {("in1", "out1"): "w", ("in2", "out1"): "w"}),
    "Splitter3": (("in1",), ("out1", "out2", "out3"), {("in1", "out%d" % i): "f" for i in (1, 2, 3)}),
    "Separator3": (("in1",), ("out1", "out2", "out3"), {("in1", "out%d" % i): "w" for i in (1, 2, 3)}),
    "Merge3": (("in1", "in2", "in3"), ("out1",), {("in%d" % i, "out1"): "w" for i in (1, 2, 3)}),
    "DropletSeparator": (("in1",), ("out1", "out2"), {("in1", "out1"): "f", ("in1", "out2"): "f"}),
    "CombustionChamber": (("in1", "in2"), ("out1",), {("in1", "out1"): "w", ("in2", "out1"): "w"}),
    "DiabaticCombustionChamber": (("in1", "in2"), ("out1",), {("in1", "out1"): "w", ("in2", "out1"): "w"}),
    "CombustionEngine": (("in1", "in2", "in3", "in4"), ("out1", "out2", "out3"),
                         {("in1", "out1"): "m", ("in2", "out2"): "m", ("in3", "out3"): "w", ("in4", "out3"): "w"}),
    "WaterElectrolyzer": (("in1", "in2"), ("out1", "out2", "out3"), {("in1", "out1"): "m"}),
    "FuelCell": (("in1", "in2", "in3"), ("out1", "out2"), {("in1", "out1"): "m"}),
}
PRODUCTS = {"CombustionChamber": {"out1": ("H2O", "CO2")}, "DiabaticCombustionChamber": {"out1": ("H2O", "CO2")},
            "CombustionEngine": {"out3": ("H2O", "CO2")}}
FIXED = {"WaterElectrolyzer": {"in2": "H2O", "out2": "O2", "out3": "H2"}, "FuelCell": {"in2": "O2", "in3": "H2", "out2": "H2O"}}


def at(P, name):
    f = P.classes["Network"].find(name)
    if f is None:
        return P.modules["tespy.networks.network"].rel
    return where(FuncV(f[1], f[0].module, f[0], None))


def linear(P):
    """classes with as many inlets as outlets that are not special"""
    return {c.name: c for c in concrete(P) if c.name not in SPECIAL and c.name not in ("Drum", "Node", "NodeBase", "Component", "Turbomachine")}


def call(N, f, *args, **kw):
    """evaluates a call; the state after a certain exception is the state it
    was raised in"""
    fr = Frame(N.fr.module, None, "<top>", None)
    fr.node = None
    v = N.I.call(f, list(args), kw, N.st, fr)
    r = [x for x in fr.raises if x[0] is not False]
    if r and N.st.pc is False or len(r) == 1 and r[0][0] is True:
        m = r[0][2]
        for x in r[1:]:
            m = N.I.merge_by_pc(x[2], m)
        N.st.heap = m.heap
        N.st.pc = True
    return v, [x[1] for x in r]


def ports(N, comp):
    i, _ = call(N, N.meth(comp, "inlets"))
    o, _ = call(N, N.meth(comp, "outlets"))
    return [x for x in N.st.heap[(i.oid, "#")]], [x for x in N.st.heap[(o.oid, "#")]]


def make(P, comps, topo, fluids, order=None, mixing=None):
    """comps: {label: class}, topo: (source, port, target, port, label)"""
    N, V = setup(P)
    N.I.MAXREC, N.I.MAXDEPTH, N.I.exact_attrs = 40, 200, True
    nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
    N.nw = nw
    c = {n: build(N, k.rstrip("3"), n) for n, k in comps.items()}
    for n, k in comps.items():
        if k.endswith("3"):
            _, exc = call(N, N.meth(c[n], "set_attr"), **{"num_in" if k.startswith("Merge") else "num_out": num(3)})
            assert not exc, exc
    conns = {}
    for i in (order or range(len(topo))):
        a, o, b, p, l = topo[i]
        conns[l] = N.I.instantiate(P.classes["Connection"], [c[a], o, c[b], p], {"label": l}, N.st, N.fr)
    for l, f in fluids.items():
        _, exc = call(N, N.meth(conns[l], "set_attr"), fluid=N.dict(list(f.items())))
        assert not exc, exc
    _, exc = call(N, N.meth(nw, "add_conns"), *conns.values())
    assert not exc, exc
    _, exc = call(N, N.meth(nw, "check_network"))
    N.c, N.conns, N.V, N.exc = c, conns, V, exc
    return N


def seq(N, v):
    if isinstance(v, Ref) and OBJS[v.oid].kind == "dict":
        return [N.I.dict_get(N.st, v, k) for k in keys(N, v)]
    return list(N.st.heap[(v.oid, "#")])


def label_of(N, ref):
    return N.get(ref, "label")


def groups(N, what):
    """[[labels]] of the branches"""
    br = N.get(N.nw, what)
    out = []
    for b in seq(N, br):
        parts = seq(N, b) if what == "fluid_branches" else [b]
        g = []
        for p in parts:
            g += [label_of(N, x) for x in seq(N, N.I.dict_get(N.st, p, "connections"))]
        out.append(g)
    return out


def partition(comps, topo, rules, kinds):
    """expected partition of the connections"""
    parent = {t[4]: t[4] for t in topo}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for n, k in comps.items():
        r = rules(n, k)
        for (i, o), kind in r.items():
            if kind in kinds:
                a = [t[4] for t in topo if t[2] == n and t[3] == i]
                b = [t[4] for t in topo if t[0] == n and t[1] == o]
                if a and b:
                    parent[find(a[0])] = find(b[0])
    g = {}
    for t in topo:
        g.setdefault(find(t[4]), set()).add(t[4])
    return sorted(map(sorted, g.values()))


def rules_of(P, topo):
    def rules(n, k):
        if k == "Drum":
            # the evaporator loop carries one mass flow of its own; if it is a single line that starts and ends at the drum, the steam
            # carries the mass flow of the feed
            loop = walk(topo, n, P)
            return {("in1", "out2"): "m" if loop else "f", ("in1", "out1"): "f", ("in2", "out2"): "w"}
        if k in SPECIAL:
            return SPECIAL[k][2]
        return None
    return rules


def walk(topo, drum, P):
    nxt = {(t[0], t[1]): (t[2], t[3]) for t in topo}
    cur = nxt.get((drum, "out1"))
    while cur is not None and cur[0] != drum:
        # only linear components in the loops used here
        cur = nxt.get((cur[0], "out" + cur[1][2:])) if not cur[0].startswith(("spl", "mer", "sink")) else None
    return cur == (drum, "in2")


def topologies(P, N0):
    """(name, comps, topo, fluids)"""
    out = []
    for k in linear(P):
        c = build(N0, k, "x")
        i, o = ports(N0, c)
        if len(i) != len(o):
            continue
        comps, topo, fl = {"x": k}, [], {}
        for j, (a, b) in enumerate(zip(i, o)):
            comps["so%d" % j] = "Source"
            comps["si%d" % j] = "Sink"
            topo += [("so%d" % j, "out1", "x", a, "a%d" % j), ("x", b, "si%d" % j, "in1", "b%d" % j)]
            fl["a%d" % j] = {("N2", "O2", "CO2")[j]: num(1)}
        out.append((k, comps, topo, fl))
    for k, (i, o, _) in SPECIAL.items():
        if k in ("Source", "Sink", "CycleCloser"):
            continue
        comps, topo, fl = {"x": k}, [], {}
        names = ("CH4", "O2", "N2", "Ar") if k != "CombustionEngine" else ("Ar", "N2", "CH4", "O2")
        for j, a in enumerate(i):
            comps["so%d" % j] = "Source"
            topo.append(("so%d" % j, "out1", "x", a, "a%d" % j))
            f = FIXED.get(k, {}).get(a)
            if f is None:
                fl["a%d" % j] = {names[j]: num(1)}
        for j, b in enumerate(o):
            comps["p%d" % j] = "Valve"
            comps["si%d" % j] = "Sink"
            topo += [("x", b, "p%d" % j, "in1", "b%d" % j), ("p%d" % j, "out1", "si%d" % j, "in1", "d%d" % j)]
        out.append((k, comps, topo, fl))
    S, V = "Source", "Valve"
    out.append(("cycle", {"cc": "CycleCloser", "a": "Pump", "b": "SimpleHeatExchanger", "t": "Turbine", "x": "HeatExchanger", "so": S, "si": "Sink"},
                [("cc", "out1", "a", "in1", "1"), ("a", "out1", "b", "in1", "2"), ("b", "out1", "t", "in1", "3"), ("t", "out1", "x", "in1", "4"),
                 ("x", "out1", "cc", "in1", "5"), ("so", "out1", "x", "in2", "6"), ("x", "out2", "si", "in1", "7")],
                {"3": {"H2O": num(1)}, "7": {"N2": num(1)}}))
    out.append(("twice through one heat exchanger", {"so": S, "x": "HeatExchanger", "p": "Pump", "si": "Sink"},
                [("so", "out1", "x", "in2", "1"), ("x", "out2", "p", "in1", "2"), ("p", "out1", "x", "in1", "3"), ("x", "out1", "si", "in1", "4")],
                {"1": {"H2O": num(1)}}))
    drum = {"so": S, "dr": "Drum", "p": "Pump", "ev": "SimpleHeatExchanger", "si": "Sink", "q": "Valve"}
    out.append(("drum with evaporator", drum,
                [("so", "out1", "q", "in1", "0"), ("q", "out1", "dr", "in1", "1"), ("dr", "out1", "p", "in1", "2"), ("p", "out1", "ev", "in1", "3"),
                 ("ev", "out1", "dr", "in2", "4"), ("dr", "out2", "si", "in1", "5")], {"0": {"H2O": num(1)}}))
    out.append(("drum with blow down", {"so": S, "dr": "Drum", "spl": "Splitter", "ev": "SimpleHeatExchanger", "si": "Sink", "sink2": "Sink"},
                [("so", "out1", "dr", "in1", "1"), ("dr", "out1", "spl", "in1", "2"), ("spl", "out1", "ev", "in1", "3"), ("spl", "out2", "sink2", "in1", "3b"),
                 ("ev", "out1", "dr", "in2", "4"), ("dr", "out2", "si", "in1", "5")], {"1": {"H2O": num(1)}}))
    out.append(("drum without circulation", {"so": S, "s2": S, "dr": "Drum", "p": "Pump", "ev": "SimpleHeatExchanger", "si": "Sink", "sink2": "Sink"},
                [("so", "out1", "dr", "in1", "1"), ("dr", "out1", "p", "in1", "2"), ("p", "out1", "sink2", "in1", "3"), ("s2", "out1", "ev", "in1", "4"),
                 ("ev", "out1", "dr", "in2", "5"), ("dr", "out2", "si", "in1", "6")], {"1": {"H2O": num(1)}, "4": {"H2O": num(1)}}))
    out.append(("recycle", {"so": S, "me": "Merge", "p": "Pump", "sp": "Splitter", "v": V, "si": "Sink"},
                [("so", "out1", "me", "in1", "1"), ("me", "out1", "p", "in1", "2"), ("p", "out1", "sp", "in1", "3"), ("sp", "out1", "v", "in1", "4"),
                 ("v", "out1", "me", "in2", "5"), ("sp", "out2", "si", "in1", "6")], {"1": {"N2": num(1)}}))
    out.append(("splitters in series", {"so": S, "s1": "Splitter", "s2": "Splitter", "v": V, "si": "Sink", "sj": "Sink", "sk": "Sink"},
                [("so", "out1", "s1", "in1", "1"), ("s1", "out1", "s2", "in1", "2"), ("s2", "out1", "v", "in1", "3"), ("v", "out1", "si", "in1", "4"),
                 ("s2", "out2", "sj", "in1", "5"), ("s1", "out2", "sk", "in1", "6")], {"4": {"N2": num(1)}}))
    out.append(("split and merge", {"so": S, "s1": "Splitter", "v": V, "w": "SimpleHeatExchanger", "me": "Merge", "si": "Sink"},
                [("so", "out1", "s1", "in1", "1"), ("s1", "out1", "v", "in1", "2"), ("s1", "out2", "w", "in1", "3"), ("v", "out1", "me", "in1", "4"),
                 ("w", "out1", "me", "in2", "5"), ("me", "out1", "si", "in1", "6")], {"1": {"N2": num(1)}}))
    four = {"A": S, "B": S, "C": S, "D": S, "sc": "Splitter", "sd": "Splitter", "m1": "Merge", "m2": "Merge", "m3": "Merge",
            "k1": "Sink", "k2": "Sink", "k3": "Sink"}
    out.append(("four sources", four,
                [("A", "out1", "m1", "in1", "A"), ("B", "out1", "m3", "in1", "B"), ("C", "out1", "sc", "in1", "C"), ("D", "out1", "sd", "in1", "D"),
                 ("sc", "out1", "m1", "in2", "c1"), ("sc", "out2", "m2", "in1", "c2"), ("sd", "out1", "m2", "in2", "d1"), ("sd", "out2", "m3", "in2", "d2"),
                 ("m1", "out1", "k1", "in1", "k1"), ("m2", "out1", "k2", "in1", "k2"), ("m3", "out1", "k3", "in1", "k3")],
                {"A": {"N2": num(1)}, "B": {"CO2": num(1)}, "C": {"O2": num(1)}, "D": {"Ar": num(1)}}))
    out.append(("exhaust cooled by an engine's water", {"so": S, "f": S, "a": S, "b": S, "x": "CombustionEngine", "h": "HeatExchanger", "k1": "Sink", "k2": "Sink", "k3": "Sink"},
                [("so", "out1", "x", "in1", "1"), ("x", "out1", "h", "in2", "2"), ("h", "out2", "k1", "in1", "3"), ("x", "out3", "h", "in1", "4"),
                 ("h", "out1", "k2", "in1", "5"), ("b", "out1", "x", "in2", "6"), ("x", "out2", "k3", "in1", "7"), ("f", "out1", "x", "in4", "8"), ("a", "out1", "x", "in3", "9")],
                {"1": {"H2O": num(1)}, "6": {"H2O": num(1)}, "8": {"CH4": num(1)}, "9": {"O2": num(1)}}))
    out.append(("air cools and burns", {"so": S, "f": S, "w": S, "sp": "Splitter", "x": "CombustionEngine", "k1": "Sink", "k2": "Sink", "k3": "Sink"},
                [("so", "out1", "sp", "in1", "1"), ("sp", "out1", "x", "in1", "2"), ("sp", "out2", "x", "in3", "3"), ("f", "out1", "x", "in4", "4"),
                 ("w", "out1", "x", "in2", "5"), ("x", "out1", "k1", "in1", "6"), ("x", "out2", "k2", "in1", "7"), ("x", "out3", "k3", "in1", "8")],
                {"1": {"N2": num(1) / num(2), "O2": num(1) / num(2)}, "4": {"CH4": num(1)}, "5": {"H2O": num(1)}}))
    out.append(("flue gas recirculation", {"so": S, "f": S, "me": "Merge", "x": "CombustionChamber", "sp": "Splitter", "v": "Compressor", "k": "Sink"},
                [("so", "out1", "me", "in1", "1"), ("me", "out1", "x", "in1", "2"), ("f", "out1", "x", "in2", "3"), ("x", "out1", "sp", "in1", "4"),
                 ("sp", "out1", "v", "in1", "5"), ("v", "out1", "me", "in2", "6"), ("sp", "out2", "k", "in1", "7")],
                {"1": {"O2": num(1)}, "3": {"CH4": num(1)}}))
    out.append(("recycle of a separator", {"so": S, "me": "Merge", "se": "Separator", "v": V, "k": "Sink"},
                [("so", "out1", "me", "in1", "1"), ("me", "out1", "se", "in1", "2"), ("se", "out1", "v", "in1", "3"), ("v", "out1", "me", "in2", "4"),
                 ("se", "out2", "k", "in1", "5")], {"1": {"N2": num(1) / num(2), "O2": num(1) / num(2)}}))
    out.append(("electrolyzer feeds fuel cell", {"so": S, "cw": S, "cf": S, "x": "WaterElectrolyzer", "y": "FuelCell", "v": V, "k1": "Sink", "k2": "Sink", "k3": "Sink"},
                [("so", "out1", "x", "in2", "1"), ("x", "out2", "y", "in2", "2"), ("x", "out3", "v", "in1", "3"), ("v", "out1", "y", "in3", "4"),
                 ("y", "out2", "k1", "in1", "5"), ("cw", "out1", "x", "in1", "6"), ("x", "out1", "k2", "in1", "7"), ("cf", "out1", "y", "in1", "8"),
                 ("y", "out1", "k3", "in1", "9")], {"6": {"H2O": num(1)}, "8": {"H2O": num(1)}}))
    out.append(("separated steam drives two lines", {"so": S, "x": "DropletSeparator", "t": "Turbine", "p": "Pump", "m": "Merge", "k": "Sink"},
                [("so", "out1", "x", "in1", "1"), ("x", "out1", "p", "in1", "2"), ("x", "out2", "t", "in1", "3"), ("p", "out1", "m", "in1", "4"),
                 ("t", "out1", "m", "in2", "5"), ("m", "out1", "k", "in1", "6")], {"1": {"H2O": num(1)}}))
    return out


def orders(n):
    r = list(range(n))
    return [None, r[::-1], r[1::2] + r[::2][::-1]]


def lin_rules(N, k):
    c = build(N, k, "x")
    i, o = ports(N, c)
    return {(a, b): "m" for a, b in zip(i, o)}


def branches(ctx, P):
    N0, _ = setup(P)
    f = at(P, "create_massflow_and_fluid_branches")
    for name, comps, topo, fluids in topologies(P, N0):
        for q, order in enumerate(orders(len(topo))):
            if name == "four sources":
                extra = [[0, 1, 2, 3], [0, 1, 3, 2], [1, 3, 0, 2], [2, 1, 0, 3]]
                runs = [e + list(range(4, len(topo))) for e in extra] if q == 0 else [order]
            else:
                runs = [order]
            for z, run_order in enumerate(runs):
                key = "branches|%s|%d.%d" % (name, q, z)
                with ctx.guard(key):
                    one(ctx, P, key, name, comps, topo, fluids, run_order)
                    ctx.count("networks")


def fluid_sets(comps, topo, fluids, wpart):
    """fluids each connection must know"""
    out = {}
    for g in wpart:
        s = set()
        for l in g:
            s |= set(fluids.get(l, {}))
        for a, o, b, i, l in topo:
            if l in g:
                s |= set(PRODUCTS.get(comps[a], {}).get(o, ()))
                for c, p in ((comps[a], o), (comps[b], i)):
                    f = FIXED.get(c, {}).get(p)
                    if f and f in FIXED.get(c, {}).values():
                        s.add(f)
        for l in g:
            out[l] = s
    return out


def one(ctx, P, key, name, comps, topo, fluids, order):
    N = make(P, comps, topo, fluids, order)
    f = at(P, "create_massflow_and_fluid_branches")
    if not ctx.check(not N.exc, key + "|checked", f, "the network is refused: %s" % N.exc):
        return
    base = rules_of(P, topo)
    cache = {}

    def rules(n, k):
        r = base(n, k)
        if r is None:
            if k not in cache:
                cache[k] = lin_rules(N, k)
            r = cache[k]
        return r
    for what, kinds, text in (("massflow_branches", "m", "mass flow"), ("fluid_branches", "mf", "composition")):
        want = partition(comps, topo, rules, kinds)
        got = groups(N, what)
        flat = [l for g in got for l in g]
        ctx.check(len(flat) == len(set(flat)) and sorted(flat) == sorted(t[4] for t in topo), key + "|%s|all" % what, f,
                  "network '%s': the branches of common %s hold %s, they must hold every connection once" % (name, text, sorted(flat)))
        ctx.check(sorted(map(sorted, got)) == want, key + "|" + what, f,
                  "network '%s': connections of common %s are %s, the code groups %s" % (name, text, want, sorted(map(sorted, got))))
    wpart = partition(comps, topo, rules, "mfw")
    N.I.intrinsics[CON + "_create_fluid_wrapper"] = lambda I, a, k, st, fr, fv: None
    _, exc = call(N, N.meth(N.nw, "propagate_fluid_wrappers"))
    f2 = at(P, "propagate_fluid_wrappers")
    if not ctx.check(not exc, key + "|fluids", f2, "network '%s': the fluids cannot be propagated: %s" % (name, exc)):
        return
    need = fluid_sets(comps, topo, fluids, wpart)
    for l, c in N.conns.items():
        got = set(keys(N, N.get(c, "fluid", "val")))
        ctx.check(got == need[l], key + "|fluids|" + l, f2,
                  "network '%s': connection %s carries the fluids %s, the streams that reach or leave it carry %s" % (name, l, sorted(got), sorted(need[l])))


LINE = ({"so": "Source", "v": "Valve", "p": "Pump", "spl": "Splitter", "si": "Sink", "sj": "Sink"},
        [("so", "out1", "v", "in1", "1"), ("v", "out1", "p", "in1", "2"), ("p", "out1", "spl", "in1", "3"), ("spl", "out1", "si", "in1", "4"),
         ("spl", "out2", "sj", "in1", "5")])
MIX = ({"A": "Source", "B": "Source", "m": "Merge", "v": "Valve", "p": "Pump", "si": "Sink"},
       [("A", "out1", "m", "in1", "a"), ("B", "out1", "m", "in2", "b"), ("m", "out1", "v", "in1", "1"), ("v", "out1", "p", "in1", "2"),
        ("p", "out1", "si", "in1", "3")])


def fresh(P, comps, topo, fluids):
    N = make(P, comps, topo, fluids)
    assert not N.exc, N.exc
    I = N.I.intrinsics
    nop = lambda I, a, k, st, fr, fv: None
    for q in ("_create_fluid_wrapper", "build_fluid_data"):
        I[CON + q] = nop
    for q in ("init_set_properties", "init_design", "init_properties", "init_offdesign_params", "init_offdesign", "solve_determination", "postprocessing"):
        I[NET + q] = nop
    N.stage = None

    def loop(I, a, k, st, fr, fv):
        calculate(N)
        return None
    I[NET + "solve_loop"] = loop
    for a, v in (("lin_dep", False), ("progress", True), ("num_conn_vars", num(0)), ("variables_dict", N.dict([]))):
        N.set(N.nw, a, v)
    for l, c in N.conns.items():
        N.set(N.get(c, "m"), "val_SI", sym("start" + l))
    return N


def calculate(N):
    """the result of the solver: every container of a mass flow or a
    composition holds one value"""
    for c in N.conns.values():
        m, f = N.get(c, "m"), N.get(c, "fluid")
        N.set(m, "val_SI", sym("m%d" % m.oid))
        N.set(m, "design", sym("d%d" % m.oid))
        N.set(m, "unit", "u%d" % m.oid)
        v = N.get(f, "val")
        for k in keys(N, v):
            if k in names(N, N.get(f, "is_var")):
                N.I.setitem(v, k, sym("y%s%d" % (k, f.oid)), N.st, N.fr)


def names(N, s):
    return {str(x) for x in N.I.iterate_value(s, N.st)}


def specs(N):
    out = {}
    for l, c in N.conns.items():
        m, f = N.get(c, "m"), N.get(c, "fluid")
        fs = names(N, N.get(f, "is_set"))
        out[l] = {"m.is_set": N.get(m, "is_set"), "m.val": N.get(m, "val") if N.get(m, "is_set") is True else None, "fluid.is_set": sorted(fs),
                  "fluid.val": {k: N.I.dict_get(N.st, N.get(f, "val"), k) for k in fs}}
    return out


def compare(ctx, N, before, key, w, what):
    after = specs(N)
    for l, d in before.items():
        for a, v in d.items():
            g = after[l][a]
            ok = g.keys() == v.keys() and all(same(g[k], v[k]) for k in v) if isinstance(v, dict) else (g == v if not isinstance(v, R) else same(g, v))
            ctx.check(ok, "%s|%s" % (key, a), w, "%s of connection %s is %s %s, it was %s" % (a, l, show(g) if not isinstance(g, dict) else g, what, v))
    seen = {}
    for l, c in N.conns.items():
        for a, o in (("mass flow", N.get(c, "m")), ("composition", N.get(c, "fluid")), ("mass fractions", N.get(c, "fluid", "val")),
                     ("specified fluids", N.get(c, "fluid", "is_set"))):
            ctx.check(seen.setdefault((a, o.oid), l) == l, "%s|own %s" % (key, a), w,
                      "connections %s and %s share their %s %s: a specification of one changes the other" % (seen[(a, o.oid)], l, a, what))


def outcome(N, start):
    """values after the calculation"""
    return {l: (N.get(c, "m", "val_SI"), N.get(c, "m", "design"), N.get(c, "m", "unit"), image(N, N.get(c, "fluid", "val"))) for l, c in N.conns.items()}


def patterns(n):
    return [[bool(i >> j & 1) for j in range(n)] for i in range(2 ** n)]


def set_m(N, l, v):
    _, exc = call(N, N.meth(N.conns[l], "set_attr"), m=v)
    assert not exc, exc


def presolve(N, *steps):
    for s in steps:
        _, exc = call(N, N.meth(N.nw, s))
        N.st.pc = True
        if exc:
            return exc
    return []


def massflow(ctx, P):
    w = at(P, "presolve_massflow_topology")
    for pat in patterns(3):
        key = "mass flow|%s" % "".join("01"[x] for x in pat)
        with ctx.guard(key):
            N = fresh(P, *LINE, {"1": {"N2": num(1)}})
            vals = {str(i + 1): sym("spec%d" % i) * num(2) + num(1) for i, x in enumerate(pat) if x}
            for l, v in vals.items():
                set_m(N, l, v)
            set_m(N, "5", num(3))
            exc = presolve(N, "presolve_massflow_topology")
            ctx.count("patterns")
            if sum(pat) > 1:
                ctx.check(exc == ["TESPyNetworkError"], key, w, "%d values for the mass flow of one line are not refused (%s)" % (sum(pat), exc))
                continue
            if not ctx.check(not exc, key, w, "a mass flow specification at %s is refused: %s" % (list(vals), exc)):
                continue
            ms = {l: N.get(N.conns[l], "m") for l in N.conns}
            ctx.check(len({ms[l].oid for l in "123"}) == 1, key + "|one", w, "the connections of one line have %d different mass flows" % len({ms[l].oid for l in "123"}))
            ctx.check(len({ms[l].oid for l in "345"}) == 3, key + "|own", w, "different lines share a mass flow")
            ctx.check(N.get(ms["1"], "is_set") is bool(vals), key + "|set", w, "the mass flow of the line is %sspecified" % ("not " if vals else ""))
            for v in vals.values():
                ctx.check(same(N.get(ms["1"], "val"), v), key + "|value", w, "the mass flow of the line is not the specified one")
            ctx.check(N.get(ms["5"], "is_set") is True and same(N.get(ms["5"], "val"), num(3)) and N.get(ms["4"], "is_set") is False, key + "|other", w,
                      "the specification of another line changes")
    for a, b in (("1", "3"), ("3", "1"), ("2", "2")):
        key = "value and reference|%s%s" % (a, b)
        with ctx.guard(key):
            N = fresh(P, *LINE, {"1": {"N2": num(1)}})
            v = sym("spec") * num(2) + num(1)
            set_m(N, a, v)
            set_m(N, b, N.I.instantiate(P.classes["Ref"], [N.conns["4"], num(2), num(1)], {}, N.st, N.fr))
            exc = presolve(N, "presolve_massflow_topology")
            ms = {l: N.get(N.conns[l], "m") for l in "123"}
            ok = not exc and len({m.oid for m in ms.values()}) == 1 and N.get(ms["1"], "is_set") is True and same(N.get(ms["1"], "val"), v)
            ctx.check(ok, key, w, "a mass flow value at one connection and a reference to another line at a second connection of a line: the value is not the mass flow of the line")
    for tgt, bad in (("1", True), ("3", True), ("4", False)):
        key = "reference|" + tgt
        with ctx.guard(key):
            N = fresh(P, *LINE, {"1": {"N2": num(1)}})
            r = N.I.instantiate(P.classes["Ref"], [N.conns[tgt], num(2), num(1)], {}, N.st, N.fr)
            set_m(N, "2", r)
            exc = presolve(N, "presolve_massflow_topology")
            ctx.check((exc == ["TESPyNetworkError"]) if bad else not exc, key, w,
                      "a mass flow reference %s the own line is %s" % ("within" if bad else "outside", "accepted" if bad else "refused"))


FL = ("Ar", "N2", "O2")
F = lambda n: num(n) / num(10)
COMP = [("none", {}, None, {}, FL), ("one", {"1": {"O2": F(2)}}, None, {"O2": F(2)}, ("Ar", "N2")),
        ("one downstream", {"3": {"N2": F(2)}}, None, {"N2": F(2)}, ("Ar", "O2")),
        ("two of three", {"1": {"O2": F(2)}, "3": {"N2": F(3)}}, None, {"O2": F(2), "N2": F(3), "Ar": F(5)}, ()),
        ("two of three, reversed", {"2": {"Ar": F(6)}, "1": {"N2": F(3)}}, None, {"Ar": F(6), "N2": F(3), "O2": F(1)}, ()),
        ("two of three at one", {"2": {"O2": F(1), "Ar": F(3)}}, None, {"O2": F(1), "Ar": F(3), "N2": F(6)}, ()),
        ("all", {"1": {"O2": F(2)}, "2": {"N2": F(3)}, "3": {"Ar": F(5)}}, None, {"O2": F(2), "N2": F(3), "Ar": F(5)}, ()),
        ("pure", {"2": {"N2": F(10)}}, None, {"O2": F(0), "N2": F(10), "Ar": F(0)}, ()),
        ("complete by two", {"2": {"N2": F(7)}, "3": {"O2": F(3)}}, None, {"O2": F(3), "N2": F(7), "Ar": F(0)}, ()),
        ("too much", {"1": {"O2": F(7)}, "3": {"N2": F(4)}}, "ValueError", None, None),
        ("too much at one", {"1": {"O2": F(7), "N2": F(4)}}, "ValueError", None, None),
        ("twice", {"1": {"O2": F(2)}, "3": {"O2": F(2)}}, "TESPyNetworkError", None, None)]
SRC = {"a": {"O2": F(10)}, "b": {"N2": F(5), "Ar": F(5)}}


def composition(ctx, P):
    w = at(P, "presolve_fluid_topology")
    for name, sp, refuse, fixed, var in COMP:
        key = "composition|" + name
        with ctx.guard(key):
            N = fresh(P, *MIX, dict(SRC, **sp))
            exc = presolve(N, "propagate_fluid_wrappers", "presolve_fluid_topology")
            ctx.count("patterns")
            if refuse:
                ctx.check(exc == [refuse], key, w, "the specification %s of one line must be refused, the outcome is %s" % (sp, exc or "accepted"))
                continue
            if not ctx.check(not exc, key, w, "the specification %s is refused: %s" % (sp, exc)):
                continue
            fs = {l: N.get(N.conns[l], "fluid") for l in "123"}
            vals = {l: {k: N.I.dict_get(N.st, N.get(f, "val"), k) for k in keys(N, N.get(f, "val"))} for l, f in fs.items()}
            for l, v in vals.items():
                ctx.check(set(v) == set(FL), key + "|fluids", w, "connection %s carries %s" % (l, sorted(v)))
                for k, x in fixed.items():
                    ctx.check(same(v[k], x), key + "|value", w, "the mass fraction of %s at connection %s is %s, specified in the line is %s" % (k, l, show(v[k]), show(x)))
                ctx.check(names(N, N.get(fs[l], "is_var")) == set(var), key + "|variable", w,
                          "variable mass fractions of connection %s are %s instead of %s" % (l, sorted(names(N, N.get(fs[l], "is_var"))), sorted(var)))
            n = [x for x in keys(N, N.get(N.nw, "variables_dict"))]
            ctx.check(same(N.get(N.nw, "num_conn_vars"), num(len(var))) and len(n) == len(var), key + "|count", w,
                      "%d variables of the composition are registered, %d mass fractions are unknown" % (len(n), len(var)))


def degenerate(ctx, P):
    """one fluid only, no fluid at all, no start of the streams"""
    w = at(P, "presolve_fluid_topology")
    for name, fl in (("one fluid in both streams", {"a": {"N2": num(1)}, "b": {"N2": num(1)}}), ("fluid specified in one stream", {"a": {"N2": num(1)}}),
                     ("fluid specified behind the merge", {"2": {"N2": num(1)}}), ("fluid specified everywhere", {l: {"N2": num(1)} for l in "ab2"})):
        key = "composition|" + name
        with ctx.guard(key):
            N = fresh(P, *MIX, fl)
            exc = presolve(N, "propagate_fluid_wrappers", "presolve_fluid_topology")
            if not ctx.check(not exc, key, w, "the specification is refused: %s" % exc):
                continue
            for l, c in N.conns.items():
                f = N.get(c, "fluid")
                v = {k: N.I.dict_get(N.st, N.get(f, "val"), k) for k in keys(N, N.get(f, "val"))}
                ctx.check(set(v) == {"N2"} and same(v["N2"], num(1)), key + "|value", w, "the only fluid of the network has the composition %s at connection %s" % (v, l))
                ctx.check(not names(N, N.get(f, "is_var")), key + "|variable", w, "the mass fraction of the only fluid is a variable at connection %s" % l)
            ctx.check(same(N.get(N.nw, "num_conn_vars"), num(0)), key + "|count", w, "%s variables are registered" % show(N.get(N.nw, "num_conn_vars")))
    with ctx.guard("composition|no fluid"):
        N = fresh(P, *MIX, {})
        exc = presolve(N, "propagate_fluid_wrappers", "presolve_fluid_topology")
        ctx.check(exc == ["TESPyNetworkError"], "composition|no fluid", at(P, "propagate_fluid_wrappers"), "a network without any fluid must be refused, the outcome is %s" % (exc or "accepted"))
    with ctx.guard("no start"):
        N = make(P, {"p": "Pump", "v": "Valve", "t": "Turbine"}, [("p", "out1", "v", "in1", "1"), ("v", "out1", "t", "in1", "2"), ("t", "out1", "p", "in1", "3")], {"1": {"N2": num(1)}})
        ctx.check(N.exc == ["TESPyNetworkError"], "no start", at(P, "create_massflow_and_fluid_branches"), "a cycle without cycle closer must be refused, the outcome is %s" % (N.exc or "accepted"))


def histories(ctx, P):
    """solve in every outcome, then the specifications are the ones before"""
    w = at(P, "solve")
    cases = [("line", LINE, {"1": {"N2": num(1)}}, {"2": sym("spec") * num(2) + num(1)}), ("line, unspecified", LINE, {"2": {"N2": num(1)}}, {}),
             ("mix", MIX, dict(SRC, **{"1": {"O2": F(2)}}), {"3": sym("spec") * num(2) + num(1), "a": num(3)}),
             ("mix, two", MIX, dict(SRC, **{"1": {"O2": F(2)}, "3": {"Ar": F(1)}}), {"1": sym("spec") * num(2) + num(1)}),
             ("mix, unspecified", MIX, SRC, {"b": num(3)})]
    stages = [None, "init_only", "init_design", "init_properties", "init_set_properties", "solve_determination", "solve_loop", "presolve_fluid_topology",
              "presolve_massflow_topology"]
    for name, topo, fluids, m in cases:
        for stage in stages:
            key = "solve|%s|%s" % (name, stage or "complete")
            with ctx.guard(key):
                N = fresh(P, *topo, fluids)
                for l, v in m.items():
                    set_m(N, l, v)
                before = specs(N)
                kw = {"init_only": True} if stage == "init_only" else {}
                old = None
                if stage and stage != "init_only":
                    q = NET + stage
                    old = N.I.intrinsics.get(q)

                    def boom(I, a, k, st, fr, fv, old=old):
                        if stage == "solve_loop":
                            calculate(N)
                        if old is None:
                            # abort in the middle of the step
                            ff = P.classes["Network"].find(stage)
                            h = I.intrinsics.pop(q)
                            I.call(FuncV(ff[1], ff[0].module, ff[0], None), a, k, st, fr)
                            I.intrinsics[q] = h
                        fr.raises.append((st.pc, "TESPyNetworkError", st.copy()))
                        st.pc = False
                        return None
                    N.I.intrinsics[q] = boom
                _, exc = call(N, N.meth(N.nw, "solve"), "design", **kw)
                N.st.pc = True
                ctx.count("histories")
                if stage and stage != "init_only":
                    if exc != ["TESPyNetworkError"]:
                        ctx.check(False, key, w, "an error in %s ends as %s" % (stage, exc or "a completed calculation"))
                        continue
                    what = "after a calculation that %s aborted" % stage
                    if old is None:
                        del N.I.intrinsics[q]
                    else:
                        N.I.intrinsics[q] = old
                elif not ctx.check(not exc, key, w, "the calculation ends with %s" % exc):
                    continue
                else:
                    what = "after a calculation"
                compare(ctx, N, before, key, w, what)
                if stage in (None, "solve_loop"):
                    o = outcome(N, None)
                    for i, text in ((0, "mass flow"), (1, "design mass flow"), (2, "mass flow unit")):
                        for g in (("1", "2", "3"),):
                            got = {repr(o[l][i]) for l in g}
                            ctx.check(len(got) == 1 and not any("start" in x for x in got), key + "|result|" + text, w,
                                      "the connections of one line report different values of the %s after the calculation: %s" % (text, sorted(got)))
                    got = {repr(o[l][3]) for l in "123"}
                    ctx.check(len(got) == 1, key + "|result|composition", w, "the connections of one line report different compositions after the calculation")
                # the specification moves along the line
                for l in m:
                    set_m(N, l, None)
                new = sym("other") * num(2) + num(1)
                set_m(N, "3" if "3" not in m else "1", new)
                before = specs(N)
                N.set(N.nw, "variables_dict", N.dict([]))
                _, exc = call(N, N.meth(N.nw, "solve"), "design")
                N.st.pc = True
                if ctx.check(not exc, key + "|again", w, "the next calculation with the mass flow specified elsewhere in the line is refused %s: %s" % (what, exc)):
                    compare(ctx, N, before, key + "|again", w, "after the next calculation")


HXN = ({"A": "Source", "B": "Source", "m": "Merge", "h": "HeatExchanger", "si": "Sink", "C": "Source", "sj": "Sink"},
       [("A", "out1", "m", "in1", "a"), ("B", "out1", "m", "in2", "b"), ("m", "out1", "h", "in1", "1"), ("h", "out1", "si", "in1", "2"),
        ("C", "out1", "h", "in2", "c"), ("h", "out2", "sj", "in1", "d")])
HOT, COLD = ("a", "b", "1", "2"), ("c", "d")


def engines(ctx, P):
    """fluid property engine, back end and mixing rule reach every connection
    the fluid reaches and no other, also after a change"""
    w = at(P, "propagate_fluid_wrappers")
    cls = {n: ClassV(P.classes[n]) for n in ("CoolPropWrapper", "IAPWSWrapper", "PyromatWrapper")}
    fl = {"a": {"N2": num(1)}, "b": {"H2O": num(1)}, "c": {"H2O": num(1)}}

    def start():
        N = fresh(P, *HXN, fl)
        for q in ("_create_fluid_wrapper", "build_fluid_data"):
            del N.I.intrinsics[CON + q]
        N.seen = None

        def loop(I, a, k, st, fr, fv):
            old = N.st
            N.st = st
            N.seen = {l: used(N, c) for l, c in N.conns.items()}
            calculate(N)
            N.st = old
            return None
        N.I.intrinsics[NET + "solve_loop"] = loop
        return N

    def used(N, c):
        out = {}
        for src, d in (("fluid.wrapper", N.get(c, "fluid", "wrapper")), ("fluid_data", N.get(c, "fluid_data"))):
            for f in keys(N, d):
                x = N.I.dict_get(N.st, d, f)
                if src == "fluid_data":
                    x = N.I.dict_get(N.st, x, "wrapper")
                out[src, f] = tuple(N.get(x, a) for a in ("engine", "fluid", "back_end")) if isinstance(x, Ref) else x
        out["rule"] = N.get(c, "mixing_rule")
        return out

    def spec(N, l, f, back_end=None, engine=None, old=None):
        v = N.dict([((back_end + "::" if back_end else "") + f, num(1))])
        kw = {"fluid": v}
        if engine:
            kw["fluid_engines"] = N.dict([(f, cls[engine])])
        _, exc = call(N, N.meth(N.conns[l], "set_attr"), **kw)
        assert not exc, exc

    def solve(N):
        N.set(N.nw, "variables_dict", N.dict([]))
        _, exc = call(N, N.meth(N.nw, "solve"), "design")
        N.st.pc = True
        return exc

    steps = [("none", {}), ("back end", {"b": ("INCOMP", None)}), ("other back end", {"b": ("IF97", None), "c": ("INCOMP", None)}),
             ("engine", {"b": (None, "IAPWSWrapper")}), ("engines of two fluids", {"b": ("IF95", "IAPWSWrapper"), "a": (None, "PyromatWrapper")}),
             ("separate engines", {"c": (None, "PyromatWrapper"), "b": (None, "CoolPropWrapper")})]
    first = {"a": "N2", "b": "H2O", "c": "H2O"}

    def expected(now):
        out = {}
        for grp in (HOT, COLD):
            for l in grp:
                for s, f in first.items():
                    if s in grp:
                        be, en = now.get(s, (None, None))
                        for src in ("fluid.wrapper", "fluid_data"):
                            out[l, src, f] = (en or "CoolPropWrapper", f, be)
        return out
    for n1, s1 in steps:
        for n2, s2 in steps:
            if n1 == n2:
                continue
            key = "engines|%s -> %s" % (n1, n2)
            with ctx.guard(key):
                N = start()
                now = {}
                for i, (n, s) in enumerate(((n1, s1), (n2, s2))):
                    for l, (be, en) in s.items():
                        spec(N, l, first[l], be, en)
                        old = now.get(l, (None, None))
                        now[l] = (be, en or old[1])
                    for l in first:
                        if l not in s:
                            # specified again without back end
                            spec(N, l, first[l])
                            now[l] = (None, now.get(l, (None, None))[1])
                    exc = solve(N)
                    k = key + "|%d" % i
                    if not ctx.check(not exc and N.seen, k, w, "the calculation with fluid property settings '%s' is refused: %s" % (n, exc)):
                        break
                    want = expected(now)
                    got = {(l, src, f): v for l, d in N.seen.items() for (src, f), v in ((x, y) for x, y in d.items() if x != "rule")}
                    bad = sorted((x, want.get(x), got.get(x)) for x in set(want) | set(got) if want.get(x) != got.get(x))
                    ctx.check(not bad, k + "|wrapper", w, "fluid property settings '%s'%s: %s" % (n, " after a calculation with '%s'" % n1 if i else "",
                              "; ".join("%s of %s at connection %s evaluates with %s instead of %s" % (x[1], x[2], x[0], b, a) for x, a, b in bad[:3])))
                    rules = {l: d["rule"] for l, d in N.seen.items()}
                    ctx.check(set(rules.values()) == {"ideal-cond"}, k + "|rule", w, "without a mixing rule the connections use %s instead of ideal-cond" % rules)
                ctx.count("engine histories")
    # mixing rules
    for l in HXN[1]:
        l = l[4]
        key = "mixing rule|%s" % l
        with ctx.guard(key):
            N = start()
            _, exc = call(N, N.meth(N.conns[l], "set_attr"), mixing_rule="ideal")
            exc = exc or solve(N)
            if ctx.check(not exc and N.seen, key, w, "the calculation with a mixing rule at connection %s is refused: %s" % (l, exc)):
                grp = HOT if l in HOT else COLD
                want = {x: "ideal" if x in grp else "ideal-cond" for x in HOT + COLD}
                got = {x: d["rule"] for x, d in N.seen.items()}
                ctx.check(got == want, key + "|reach", w, "the mixing rule given at connection %s holds at %s, expected %s" % (l, got, want))
        for l2 in [t[4] for t in HXN[1]]:
            if l2 <= l:
                continue
            key = "mixing rules|%s, %s" % (l, l2)
            with ctx.guard(key):
                N = start()
                for x, r in ((l, "ideal"), (l2, "incompressible")):
                    _, exc = call(N, N.meth(N.conns[x], "set_attr"), mixing_rule=r)
                    assert not exc, exc
                exc = solve(N)
                together = (l in HOT) == (l2 in HOT)
                ctx.check((exc == ["TESPyNetworkError"]) == together and (together or not exc), key, w,
                          "different mixing rules at connections %s and %s, which %s: %s" % (l, l2, "mix" if together else "do not mix", exc or "accepted"))


def run(ctx):
    ctx.rule = "branches equal the partition of the conservation laws; specifications equal before and after every calculation"
    P = program(STUBS)
    ctx.units.update(P.modules[m].rel for m in ("tespy.networks.network", "tespy.components.component", "tespy.connections.connection"))
    branches(ctx, P)
    massflow(ctx, P)
    composition(ctx, P)
    degenerate(ctx, P)
    histories(ctx, P)
    engines(ctx, P)
    ctx.floor("networks", ctx.counts.get("networks", 0), 60)
    return EXPL
