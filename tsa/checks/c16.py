"""Specifications are taken over exactly as given, invalid ones refused."""
from .. import dd
from ..common import program, concrete, where, same
from ..interp import OBJS, Ref, num, sym, MISSING, UNDEF, ClassV, FuncV
from .c01 import short
from .c08 import setup, build, call, flag, kind, keys, eq, image, show, line, cmap, fill, ATTRS, options, OPTS
from .c12 import ev

EXPL = ("Components of every class, connections, busses, references and networks are built through their constructors with symbolic "
        "values and flags; set_attr and the constructors are interpreted for every keyword and every kind of argument (number, None, "
        "'var', text, list, dict, characteristic, reference, boolean, unknown keyword). The heap image afterwards must differ from "
        "the one before in exactly the specified item, or not at all when the documented exception is raised.")
STUBS = ("pandas", "nparr")
CP, SI, CC, CM = "ComponentProperties", "SimpleDataContainer", "ComponentCharacteristics", "ComponentCharacteristicMaps"
GP, GC = "GroupedComponentProperties", "GroupedComponentCharacteristics"
NEW = sym("new") * num(2) + num(1)     # a number
ALL = ("val", "is_set", "is_var", "min_val", "max_val", "param", "char_params", "char_func", "val0", "unit", "ref", "elements", "design", "val_SI", "back_end", "engine")


def attrs(N, o):
    return [k[2] for k in N.st.heap if k[0] == o.oid and k[1] == "a"]


def snapshot(N, o, conts, opts):
    out = {}
    for p in conts:
        d = N.get(o, p)
        out[p, None] = d
        for a in ALL:
            if (d.oid, "a", a) in N.st.heap:
                out[p, a] = image(N, N.get(d, a))
    for a in opts:
        out[None, a] = image(N, N.get(o, a))
    return out


def compare(ctx, N, before, after, want, key, w):
    """after equals before except for the items of want"""
    bad = []
    und = False
    for k, v in before.items():
        x = want.get(k, v)
        if x is Ellipsis:
            continue
        got = after.get(k, UNDEF)
        r = eq(got, x) if got is not UNDEF else False
        if r is None:
            und = True
        if r is False:
            bad.append((k not in want, k, got, x))
    for k in want:
        if k not in before and want[k] is not Ellipsis and eq(after.get(k, UNDEF), want[k]) is False:
            bad.append((False, k, after.get(k), want[k]))
    msg = ""
    if bad:
        bad.sort(key=lambda b: (b[0], str(b[1])))
        msg = "; ".join("%s is %s, expected %s" % (".".join(str(z) for z in k if z), show(g), show(x)) for _, k, g, x in bad[:2])
    ctx.check(False if bad else None if und else True, key, w, msg)
    ctx.count("specification cases")


COPT = [a for a, _ in OPTS] + ["fkt_group", "char_warnings", "new_design", "label"]


def component_cases(N, p, k):
    """(text, argument, exception, changes)"""
    v = NEW
    txt = "abc"
    lst = N.list(sym("l0"))
    if k == CP:
        yield "a number", v, None, {"val": v, "is_set": True, "is_var": False}
        yield "zero", num(0), None, {"val": num(0), "is_set": True, "is_var": False}
        yield "'var'", "var", None, {"is_set": True, "is_var": True}
        yield "None", None, None, {"is_set": False, "is_var": False}
        yield "a dictionary", N.dict([("val", v), ("max_val", NEW * num(3)), ("is_set", True), ("is_var", True)]), None, {"val": v, "max_val": NEW * num(3), "is_set": True, "is_var": True}
        yield "a dictionary with an unknown item", N.dict([("value", v)]), "KeyError", {}
        yield "text", txt, "TypeError", {}
        yield "a list", lst, "TypeError", {}
    elif k == SI:
        yield "a number", v, None, {"val": v, "is_set": True}
        yield "text", txt, None, {"val": txt, "is_set": True}
        yield "None", None, None, {"is_set": False}
    elif k in (CC, CM):
        c = line(N, "new") if k == CC else cmap(N, "new")
        yield "a characteristic", c, None, {"char_func": image(N, c), "is_set": Ellipsis}
        yield "None", None, None, {"is_set": False}
        yield "a dictionary", N.dict([("char_func", c), ("is_set", True)]), None, {"char_func": image(N, c), "is_set": True}
        yield "a dictionary with an unknown item", N.dict([("value", v)]), "KeyError", {}
        yield "a number", v, "TypeError", {}
        yield "text", txt, "TypeError", {}
    elif k in (GP, GC):
        yield "None", None, None, {"is_set": False}
        yield "a dictionary", N.dict([("is_set", True)]), None, {"is_set": True}


def option_cases(N, names):
    yield "design", "a list", N.list(names[-1]), None, ("list", names[-1])
    yield "offdesign", "a list", N.list(names[0]), None, ("list", names[0])
    yield "design", "an empty list", N.list(), None, ("list",)
    for a in ("design", "offdesign"):
        yield a, "text", names[0], "TypeError", None
        yield a, "an unknown parameter", N.list(names[0], "abc"), "ValueError", None
    for a in ("local_design", "local_offdesign", "printout"):
        yield a, "True", True, None, True
        yield a, "False", False, None, False
        yield a, "a number", num(1), "TypeError", None
        yield a, "text", "abc", "TypeError", None


def refused(ctx, exc, want, key, w):
    if want is None:
        ctx.check(not exc, key + " is accepted", w, "raises %s" % exc)
    else:
        ctx.check(want in exc, key + " is refused with %s" % want, w, "raises %s" % (exc or "nothing"))


def components(ctx, P):
    for c in concrete(P):
        ctx.units.add(c.module.rel)
        with ctx.guard("set_attr of " + c.name):
            N, V = setup(P)
            o = build(N, c)
            names = keys(N, N.get(o, "parameters"))
            for p in names:
                d = N.get(o, p)
                fill(N, d, p)
                if (d.oid, "a", "is_set") in N.st.heap:
                    N.set(d, "is_set", flag(N, p + ".set"))
            options(N, o, names, (("fkt_group", "text"), ("char_warnings", "flag")))
            N.set(o, "new_design", False)
            f = N.meth(o, "set_attr")
            w = where(f)
            base = dict(N.st.heap), N.st.pc

            def back():
                N.st.heap = dict(base[0])
                N.st.pc = base[1]
            for p in names:
                k = kind(N.get(o, p))
                back()
                for t, v, exc, chg in list(component_cases(N, p, k)):
                    # the arguments live in the heap: do not go back before the call
                    before = snapshot(N, o, names, COPT)
                    _, got = call(N, f, **{p: v})
                    after = snapshot(N, o, names, COPT)
                    key = "%s.set_attr(%s = %s)" % (c.name, p, t)
                    refused(ctx, got, exc, key, w)
                    if (exc is None) == (not got):
                        compare(ctx, N, before, after, {(p, a): x for a, x in chg.items()}, key + ": effect", w)
                    keep = {h: x for h, x in N.st.heap.items() if h not in base[0]}
                    back()
                    N.st.heap.update(keep)
            if not names:
                continue
            back()
            cases = list(option_cases(N, names)) + [("char_warnings", "True", True, None, True), ("char_warnings", "text", "abc", "TypeError", None),
                                                    ("design_path", "text", "path", None, "path"), ("design_path", "None", None, None, None),
                                                    ("fkt_group", "text", "group", None, "group"), ("abc", "a number", num(1), "KeyError", None)]
            for a, t, v, exc, want in cases:
                before = snapshot(N, o, names, COPT)
                _, got = call(N, f, **{a: v})
                after = snapshot(N, o, names, COPT)
                key = "%s.set_attr(%s = %s)" % (c.name, a, t)
                refused(ctx, got, exc, key, w)
                if (exc is None) == (not got):
                    chg = {(None, a): want} if exc is None else {}
                    if a == "design_path":
                        chg[None, "new_design"] = True
                    if a == "fkt_group":
                        chg[None, "new_design"] = Ellipsis
                    compare(ctx, N, before, after, chg, key + ": effect", w)
                keep = {h: x for h, x in N.st.heap.items() if h not in base[0]}
                back()
                N.st.heap.update(keep)
            # two keywords at once: both take effect
            two = [p for p in names if kind(N.get(o, p)) == CP][:2]
            if len(two) == 2:
                before = snapshot(N, o, names, COPT)
                _, got = call(N, f, **{two[0]: NEW, two[1]: None})
                after = snapshot(N, o, names, COPT)
                compare(ctx, N, before, after, {(two[0], "val"): NEW, (two[0], "is_set"): True, (two[0], "is_var"): False, (two[1], "is_set"): False, (two[1], "is_var"): False},
                        "%s.set_attr of two parameters: effect" % c.name, w)


NOPT = [a for a, _ in OPTS] + ["mixing_rule", "new_design", "label", "source_id", "target_id"]


def conn(N, P):
    a, b = build(N, "Source", "so"), build(N, "Sink", "si")
    return N.I.instantiate(P.classes["Connection"], [a, "out1", b, "in1"], {"label": "c"}, N.st, N.fr)


def connections(ctx, P):
    ctx.units.add(P.classes["Connection"].module.rel)
    with ctx.guard("set_attr of connections"):
        N, V = setup(P)
        o, other = conn(N, P), conn(N, P)
        names = keys(N, N.get(o, "property_data")) + ["state"]
        for p in names:
            d = N.get(o, p)
            if kind(d) == "FluidComposition":
                N.set(d, "val", N.dict([("H2O", sym("y"))]))
                N.set(d, "is_set", N.I.new_set(N.st, ["H2O"]))
                continue
            fill(N, d, p)
            if (d.oid, "a", "is_set") in N.st.heap:
                N.set(d, "is_set", flag(N, p + ".set"))
            if (d.oid, "a", "is_var") in N.st.heap:
                N.set(d, "is_var", flag(N, p + ".var"))
        pars = keys(N, N.get(o, "property_data"))
        options(N, o, pars)
        N.set(o, "new_design", False)
        f = N.meth(o, "set_attr")
        w = where(f)
        base = dict(N.st.heap), N.st.pc

        def go(key, kw, exc, chg):
            before = snapshot(N, o, names, NOPT)
            _, got = call(N, f, **kw)
            after = snapshot(N, o, names, NOPT)
            refused(ctx, got, exc, key, w)
            if (exc is None) == (not got):
                compare(ctx, N, before, after, chg, key + ": effect", w)
            keep = {h: x for h, x in N.st.heap.items() if h not in base[0]}
            N.st.heap = dict(base[0])
            N.st.heap.update(keep)
            N.st.pc = base[1]
        v = NEW
        n = 0
        for p in pars:
            d = N.get(o, p)
            if kind(d) != "FluidProperties":
                continue
            n += 1
            key = "Connection.set_attr(%s = %%s)" % p
            var = p in ("m", "p", "h")
            go(key % "a number", {p: v}, None, dict([((p, "val"), v), ((p, "is_set"), True)] + ([((p, "is_var"), False)] if var else [])))
            go(key % "zero", {p: num(0)}, None, dict([((p, "val"), num(0)), ((p, "is_set"), True)] + ([((p, "is_var"), False)] if var else [])))
            chg = {(p, "is_set"): False}
            if p + "_ref" in pars:
                chg[p + "_ref", "is_set"] = False
            if var:
                chg[p, "is_var"] = True
            go(key % "None", {p: None}, None, chg)
            go(key % "text", {p: "abc"}, "TypeError", {})
            go(key % "a list", {p: N.list(v)}, "TypeError", {})
            r = N.I.instantiate(P.classes["Ref"], [other, num(2), num(3)], {}, N.st, N.fr)
            if p + "_ref" in pars:
                go(key % "a reference", {p: r}, None, {(p + "_ref", "ref"): r, (p + "_ref", "is_set"): True})
            else:
                go(key % "a reference", {p: r}, "NotImplementedError", {})
            go("Connection.set_attr(%s0 = a number)" % p, {p + "0": v}, None, {(p, "val0"): v})
            go("Connection.set_attr(%s0 = text)" % p, {p + "0": "abc"}, "TypeError", {})
        ctx.floor("connection properties", n, 7)
        go("Connection.set_attr(state = 'l')", {"state": "l"}, None, {("state", "val"): "l", ("state", "is_set"): True})
        go("Connection.set_attr(state = 'g')", {"state": "g"}, None, {("state", "val"): "g", ("state", "is_set"): True})
        go("Connection.set_attr(state = None)", {"state": None}, None, {("state", "is_set"): False})
        go("Connection.set_attr(state = text)", {"state": "f"}, "TypeError", {})
        for a, t, x, exc, want in list(option_cases(N, ["p", "m"])) + [("design_path", "text", "path", None, "path"), ("mixing_rule", "text", "incompressible", None, "incompressible"),
                                                                      ("abc", "a number", num(1), "KeyError", None), ("label", "text", "x", "TESPyConnectionError", None)]:
            chg = {(None, a): want} if exc is None else {}
            if a == "design_path":
                chg[None, "new_design"] = True
            go("Connection.set_attr(%s = %s)" % (a, t), {a: x}, exc, chg)
        fl = N.get(o, "fluid")
        d0 = image(N, N.get(fl, "val"))
        go("Connection.set_attr(fluid_balance = True)", {"fluid_balance": True}, None, {("fluid_balance", "is_set"): True})
        go("Connection.set_attr(fluid_balance = text)", {"fluid_balance": "abc"}, "TypeError", {})
        go("Connection.set_attr(fluid = a number)", {"fluid": num(1)}, "TypeError", {})
        go("Connection.set_attr(fluid = a list)", {"fluid": N.list("H2O")}, "TypeError", {})
        go("Connection.set_attr(fluid_abc)", {"fluid_abc": N.dict([])}, "KeyError", {})
        S = lambda *a: image(N, N.I.new_set(N.st, list(a)))
        go("Connection.set_attr(fluid = a composition)", {"fluid": N.dict([("CO2", v)])}, None,
           {("fluid", "val"): image(N, N.dict([("CO2", v), ("H2O", sym("y"))])), ("fluid", "is_set"): S("H2O", "CO2"), ("fluid", "back_end"): Ellipsis})
        go("Connection.set_attr(fluid = a composition with back end)", {"fluid": N.dict([("INCOMP::CO2", v)])}, None,
           {("fluid", "val"): image(N, N.dict([("CO2", v), ("H2O", sym("y"))])), ("fluid", "is_set"): S("H2O", "CO2"), ("fluid", "back_end"): image(N, N.dict([("CO2", "INCOMP")]))})
        N.set(fl, "is_var", N.I.new_set(N.st, ["CO2", "N2"]))
        base[0].update({h: x for h, x in N.st.heap.items() if h[0] == fl.oid or h not in base[0]})
        go("Connection.set_attr(fluid = a fluid that was variable)", {"fluid": N.dict([("CO2", v)])}, None,
           {("fluid", "val"): image(N, N.dict([("CO2", v), ("H2O", sym("y"))])), ("fluid", "is_set"): S("H2O", "CO2"), ("fluid", "is_var"): S("N2"), ("fluid", "back_end"): Ellipsis})
        N.set(fl, "is_var", N.I.new_set(N.st, []))
        base[0].update({h: x for h, x in N.st.heap.items() if h[0] == fl.oid or h not in base[0]})
        go("Connection.set_attr(fluid = {fluid: None})", {"fluid": N.dict([("H2O", None)])}, None, {("fluid", "is_set"): S(), ("fluid", "is_var"): S("H2O")})
        go("Connection.set_attr(fluid0)", {"fluid0": N.dict([("N2", v)])}, None, {("fluid", "val0"): image(N, N.dict([("N2", v)]))})
    # constructors
    with ctx.guard("constructor of connections"):
        N, V = setup(P)
        a, b = build(N, "Source", "so"), build(N, "Sink", "si")
        hx = build(N, "HeatExchanger", "hx")
        K = P.classes["Connection"]
        f = FuncV(K.find("__init__")[1], K.module, K, None)
        for t, args, exc in (("between two ports", [a, "out1", b, "in1"], None), ("of a port that does not exist", [a, "out2", b, "in1"], "ValueError"),
                             ("of an inlet as source port", [a, "in1", b, "in1"], "ValueError"), ("of a target port that does not exist", [a, "out1", b, "out1"], "ValueError"),
                             ("from a component to itself", [hx, "out1", hx, "in1"], "TESPyConnectionError"), ("from text", ["so", "out1", b, "in1"], "TypeError"),
                             ("to text", [a, "out1", "si", "in1"], "TypeError"), ("with the second port", [hx, "out2", b, "in1"], None),
                             ("to a port beyond the last", [a, "out1", hx, "in3"], "ValueError")):
            _, got = call(N, ClassV(K), *args)
            N.st.pc = True
            refused(ctx, got, exc, "connection " + t, where(f))
        _, got = call(N, ClassV(K), a, "out1", b, "in1", label=num(1))
        N.st.pc = True
        refused(ctx, got, "TypeError", "connection with a number as label", where(f))
        ok = call(N, ClassV(K), hx, "out2", b, "in1")[0]
        ctx.check(N.get(ok, "label") == "hx:out2_si:in1", "default label of a connection", where(f), "is %s" % (N.get(ok, "label"),))
        for at, x in (("source", hx), ("source_id", "out2"), ("target", b), ("target_id", "in1")):
            ctx.check(N.get(ok, at) == x, "%s of a new connection" % at, where(f), "is %s" % (N.get(ok, at),))
        R = P.classes["Ref"]
        f = FuncV(R.find("__init__")[1], R.module, R, None)
        for t, args, exc in (("with numbers", [ok, num(2), num(3)], None), ("to text", ["c", num(2), num(3)], "TypeError"), ("to a component", [hx, num(2), num(3)], "TypeError"),
                             ("with a text factor", [ok, "2", num(3)], "TypeError"), ("with a text difference", [ok, num(2), "3"], "TypeError"), ("without difference", [ok, num(2), None], "TypeError")):
            r, got = call(N, ClassV(R), *args)
            N.st.pc = True
            refused(ctx, got, exc, "reference " + t, where(f))
            if exc is None:
                ctx.check(N.get(r, "obj") == ok and same(N.get(r, "factor"), num(2)) and same(N.get(r, "delta"), num(3)), "items of a reference", where(f), "are exchanged")
    with ctx.guard("constructor of components"):
        for c in concrete(P):
            N, V = setup(P)
            f = FuncV(*(lambda t: (t[1], t[0].module, t[0], None))(c.find("__init__")))
            for t, lab, exc in (("text", "a b-c_1", None), ("a number", num(1), "ValueError"), ("a label with ;", "a;b", "ValueError"), ("a label with ,", "a,b", "ValueError"), ("a label with .", "a.b", "ValueError")):
                o, got = call(N, ClassV(c), lab)
                N.st.pc = True
                refused(ctx, got, exc, "%s with %s as label" % (c.name, t), where(f))


def busses(ctx, P):
    B = P.classes["Bus"]
    ctx.units.add(B.module.rel)
    with ctx.guard("bus"):
        N, V = setup(P)
        o = build(N, "Bus", "b")
        tu, pu = build(N, "Turbine", "tu"), build(N, "Pump", "pu")
        d = N.get(o, "P")
        N.set(d, "val", sym("old"))
        N.set(d, "is_set", flag(N, "P.set"))
        N.set(o, "printout", flag(N, "printout"))
        f = N.meth(o, "set_attr")
        w = where(f)
        base = dict(N.st.heap), N.st.pc
        v = NEW

        def go(key, kw, exc, chg):
            before = snapshot(N, o, ["P"], ["printout", "label"])
            _, got = call(N, f, **kw)
            nan = dd.literals(N.I.truth(sym("nothing"), N.st))
            after = snapshot(N, o, ["P"], ["printout", "label"])
            refused(ctx, got, exc, key, w)
            if (exc is None) == (not got):
                compare(ctx, N, before, after, chg, key + ": effect", w)
            N.st.heap = dict(base[0])
            N.st.pc = base[1]
        go("Bus.set_attr(P = 5)", {"P": num(5)}, None, {("P", "val"): num(5), ("P", "is_set"): True})
        go("Bus.set_attr(P = 0)", {"P": num(0)}, None, {("P", "val"): num(0), ("P", "is_set"): True})
        go("Bus.set_attr(P = nan)", {"P": sym("nan")}, None, {("P", "is_set"): False})
        go("Bus.set_attr(P = None)", {"P": None}, None, {("P", "is_set"): False})
        go("Bus.set_attr(P = text)", {"P": "abc"}, "TypeError", {})
        go("Bus.set_attr(printout = False)", {"printout": False}, None, {(None, "printout"): False})
        go("Bus.set_attr(printout = text)", {"printout": "abc"}, "TypeError", {})
        go("Bus.set_attr(abc)", {"abc": num(1)}, "KeyError", {})
    with ctx.guard("members of a bus"):
        N, V = setup(P)
        tu, pu = build(N, "Turbine", "tu"), build(N, "Pump", "pu")
        o = build(N, "Bus", "b")
        f = N.meth(o, "add_comps")
        w = where(f)
        l = line(N, "new")
        base = dict(N.st.heap), N.st.pc
        for t, items, exc in (("a component alone", [("comp", tu)], None), ("all items", [("comp", tu), ("param", "Q"), ("char", l), ("P_ref", NEW), ("base", "bus")], None),
                              ("an efficiency", [("comp", tu), ("char", num(2))], None), ("no component", [("param", "Q")], "TypeError"), ("text as component", [("comp", "tu")], "TypeError"),
                              ("a number as parameter", [("comp", tu), ("param", num(1))], "TypeError"), ("text as characteristic", [("comp", tu), ("char", "abc")], "TypeError"),
                              ("text as reference value", [("comp", tu), ("P_ref", "abc")], "TypeError"), ("an unknown base", [("comp", tu), ("base", "abc")], "ValueError")):
            call(N, f, N.dict([("comp", pu), ("param", "x"), ("base", "bus"), ("P_ref", NEW * num(2))]))
            rowpu = row(N, o, pu)
            _, got = call(N, f, N.dict(items))
            refused(ctx, got, exc, "bus member with " + t, w)
            kw = dict(items)
            if not got:
                want = {"param": kw.get("param"), "P_ref": kw.get("P_ref", sym("nan")), "base": kw.get("base", "component")}
                r = row(N, o, tu)
                for k, x in want.items():
                    ctx.check(eq(r[k], x), "bus member with %s: %s" % (t, k), w, "is %s, expected %s" % (show(r[k]), show(x)))
                ch = r["char"]
                if "char" in kw and isinstance(kw["char"], Ref):
                    ctx.check(ch == l, "bus member with %s: char" % t, w, "is %s" % show(ch))
                else:
                    for x in (num(0), num(1), num(3)):
                        val = call(N, N.meth(ch, "evaluate"), x)[0]
                        ctx.check(same(val, num(2 if "char" in kw else 1)), "bus member with %s: efficiency" % t, w, "at load %s is %s" % (short(x), short(val)))
            ctx.check(eq(tuple(row(N, o, pu).values()), tuple(rowpu.values())), "the other members stay: bus member with %s" % t, w, "changed")
            N.st.heap, N.st.pc = dict(base[0]), base[1]
        _, got = call(N, f, tu)
        refused(ctx, got, "TypeError", "a component instead of a dictionary as bus member", w)


def row(N, bus, comp):
    return {k: image(N, ev(N, "b.comps.loc[c, '%s']" % k, b=bus, c=comp)) if k != "char" else ev(N, "b.comps.loc[c, 'char']", b=bus, c=comp) for k in ("param", "P_ref", "char", "base")}


def networks(ctx, P):
    ctx.units.add(P.classes["Network"].module.rel)
    with ctx.guard("additions to the network"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        c = {n: build(N, k, n) for n, k in (("so", "Source"), ("si", "Sink"), ("tu", "Turbine"), ("so2", "Source"), ("si2", "Sink"))}
        mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
        c1, c2, c3 = mk(c["so"], "out1", c["tu"], "in1", "1"), mk(c["tu"], "out1", c["si"], "in1", "2"), mk(c["so2"], "out1", c["si2"], "in1", "1")
        twin = build(N, "Sink", "tu")
        c4 = mk(c["so2"], "out1", twin, "in1", "4")
        f = N.meth(nw, "add_conns")
        table = lambda: image(N, ev(N, "(list(n.conns.index), list(n.conns['object']), list(n.comps.index), list(n.comps['object']))", n=nw))
        _, got = call(N, f, c1, c2)
        refused(ctx, got, None, "adding connections", where(f))
        tab = table()
        got_objs = objs(N, nw)
        ctx.check(got_objs == ({"1": c1, "2": c2}, {"so": c["so"], "tu": c["tu"], "si": c["si"]}), "the network holds the added connections and their components", where(f), "holds %s" % (got_objs,))
        for t, a, exc in (("a connection label twice", c3, "ValueError"), ("a component as connection", c["tu"], "TypeError"), ("text as connection", "c", "TypeError"),
                          ("two components with one label", c4, "TESPyNetworkError")):
            _, got = call(N, f, a)
            refused(ctx, got, exc, "adding " + t, where(f))
            N.st.pc = True
            if a is not c4:
                ctx.check(objs(N, nw) == got_objs, "a refused addition leaves the network alone: " + t, where(f), "changed")
        B = [build(N, "Bus", "b"), build(N, "Bus", "b"), build(N, "Bus", "b2")]
        f = N.meth(nw, "add_busses")
        for t, a, exc in (("a bus", B[0], None), ("a bus label twice", B[1], "TESPyNetworkError"), ("a bus twice", B[0], "TESPyNetworkError"), ("a second bus", B[2], None), ("a component as bus", c["tu"], "TypeError")):
            _, got = call(N, f, a)
            N.st.pc = True
            refused(ctx, got, exc, "adding " + t, where(f))
        bs = {k: N.I.dict_get(N.st, N.get(nw, "busses"), k) for k in keys(N, N.get(nw, "busses"))}
        ctx.check(bs == {"b": B[0], "b2": B[2]}, "the network holds the added busses", where(f), "holds %s" % bs)
        _, got = call(N, N.meth(nw, "del_busses"), B[0])
        N.st.pc = True
        ks = [k for k in keys(N, N.get(nw, "busses")) if N.I.dict_get(N.st, N.get(nw, "busses"), k) is not MISSING]
        ctx.check(not got and ks == ["b2"], "a deleted bus is no longer part of the network", where(N.meth(nw, "del_busses")), "holds %s %s" % (ks, got))
    with ctx.guard("removal from the network"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        c = {n: build(N, k, n) for n, k in (("so", "Source"), ("si", "Sink"), ("tu", "Turbine"), ("va", "Valve"))}
        mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
        cs = {"1": mk(c["so"], "out1", c["tu"], "in1", "1"), "2": mk(c["tu"], "out1", c["va"], "in1", "2"), "3": mk(c["va"], "out1", c["si"], "in1", "3")}
        call(N, N.meth(nw, "add_conns"), *cs.values())
        _, got = call(N, N.meth(nw, "check_network"))
        f = N.meth(nw, "del_conns")
        _, got = call(N, f, cs["3"])
        refused(ctx, got, None, "deleting a connection", where(f))
        N.st.pc = True
        ctx.check(objs(N, nw) == ({"1": cs["1"], "2": cs["2"]}, {k: c[k] for k in ("so", "tu", "va")}), "after deleting a connection only components without connection have gone", where(f), "holds %s" % (objs(N, nw),))
        ctx.check(N.get(nw, "checked") is False, "the topology is checked again after deleting a connection", where(f), "checked is %s" % N.get(nw, "checked"))
        N.set(nw, "checked", True)
        si2 = build(N, "Sink", "si")
        _, got = call(N, N.meth(nw, "add_conns"), mk(c["va"], "out1", si2, "in1", "3"))
        refused(ctx, got, None, "adding a connection with the label of a deleted one", where(N.meth(nw, "add_conns")))
        ctx.check(N.get(nw, "checked") is False, "the topology is checked again after adding a connection", where(N.meth(nw, "add_conns")), "checked is %s" % N.get(nw, "checked"))
    for gone, left in (("1", ("tu", "va", "si")), ("2", ("so", "tu", "va", "si"))):
        with ctx.guard("removal of connection " + gone):
            N, V = setup(P)
            nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
            c = {n: build(N, k, n) for n, k in (("so", "Source"), ("si", "Sink"), ("tu", "Turbine"), ("va", "Valve"))}
            mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
            cs = {"1": mk(c["so"], "out1", c["tu"], "in1", "1"), "2": mk(c["tu"], "out1", c["va"], "in1", "2"), "3": mk(c["va"], "out1", c["si"], "in1", "3")}
            call(N, N.meth(nw, "add_conns"), *cs.values())
            call(N, N.meth(nw, "check_network"))
            f = N.meth(nw, "del_conns")
            _, got = call(N, f, cs[gone])
            N.st.pc = True
            want = ({k: v for k, v in cs.items() if k != gone}, {k: c[k] for k in left})
            ctx.check(not got and objs(N, nw) == want, "after deleting connection %s of three in a line the components still connected remain" % gone, where(f), "holds %s %s" % (objs(N, nw), got))
    with ctx.guard("removal before the first calculation"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        so, tu, si, si2 = build(N, "Source", "so"), build(N, "Turbine", "tu"), build(N, "Sink", "si"), build(N, "Sink", "si2")
        mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
        c1, c2 = mk(so, "out1", tu, "in1", "1"), mk(tu, "out1", si, "in1", "2")
        call(N, N.meth(nw, "add_conns"), c1, c2)
        f = N.meth(nw, "del_conns")
        _, got = call(N, f, c2)
        refused(ctx, got, None, "deleting a connection of a network that was not calculated yet", where(f))
        N.st.pc = True
        ctx.check(objs(N, nw) == ({"1": c1}, {"so": so, "tu": tu}), "a connection deleted before the first calculation is gone", where(f), "holds %s" % (objs(N, nw),))
    for rows in (("1", "2", "3"), ("1", "2")):
        with ctx.guard("results of a deleted connection, table with %d rows" % len(rows)):
            N, V = setup(P)
            nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
            so, tu, va, si = build(N, "Source", "so"), build(N, "Turbine", "tu"), build(N, "Valve", "va"), build(N, "Sink", "si")
            mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
            cs = {"1": mk(so, "out1", tu, "in1", "1"), "2": mk(tu, "out1", va, "in1", "2"), "3": mk(va, "out1", si, "in1", "3")}
            call(N, N.meth(nw, "add_conns"), *cs.values())
            call(N, N.meth(nw, "check_network"))
            df = ev(N, "pd.DataFrame(columns=cols)", cols=N.list("m", "p"))
            for r in rows:
                ev(N, "df.loc.__setitem__(r, v)", df=df, r=r, v=N.list(sym("m" + r), sym("p" + r)))
            N.I.setitem(N.get(nw, "results"), "Connection", df, N.st, N.fr)
            f = N.meth(nw, "del_conns")
            _, got = call(N, f, cs["3"])
            N.st.pc = True
            refused(ctx, got, None, "deleting a connection after a calculation (%d result rows)" % len(rows), where(f))
            got = image(N, ev(N, "list(n.results['Connection'].index)", n=nw))
            ctx.check(repr(got) == repr(image(N, N.list("1", "2"))), "the results no longer list a deleted connection (%d result rows)" % len(rows), where(f), "index is %s" % (got,))
    with ctx.guard("settings of the network"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        f = N.meth(nw, "set_attr")
        opts = [a for a in attrs(N, nw) if isinstance(a, str) and (a.endswith("_unit") or a.endswith("_range") or a.endswith("_range_SI") or a == "iterinfo")]
        ctx.floor("network settings", len(opts), 10)
        base = dict(N.st.heap), N.st.pc
        for a in sorted(opts):
            if a.endswith("_SI"):
                continue
            for t, v, exc in (("text", "abc", "TypeError" if a.endswith("_range") or a == "iterinfo" else "ValueError"), ("a number", num(7), "TypeError" if a.endswith("_range") or a == "iterinfo" else "ValueError")):
                before = {(None, x): image(N, N.get(nw, x)) for x in opts}
                _, got = call(N, f, **{a: v})
                refused(ctx, got, exc, "Network.set_attr(%s = %s)" % (a, t), where(f))
                after = {(None, x): image(N, N.get(nw, x)) for x in opts}
                if got:
                    compare(ctx, N, before, after, {}, "Network.set_attr(%s = %s): effect" % (a, t), where(f))
                N.st.heap, N.st.pc = dict(base[0]), base[1]


def objs(N, nw):
    from .c08 import objects
    return tuple({N.get(v, "label"): v for v in objects(N, nw, t)} for t in ("conns", "comps"))


def lookups(ctx, P):
    """user defined equations, subsystems, access by label and name"""
    with ctx.guard("user defined equations"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        cls = P.classes["UserDefinedEquation"]
        ctx.units.add(cls.module.rel)
        f = cls.find("__init__")
        w = where(FuncV(f[1], f[0].module, f[0], None))
        fn, dv, conns, par = sym("func"), sym("deriv"), N.list(sym("c1")), N.dict([("a", num(1))])

        def new(**kw):
            a = dict({"label": "u", "func": fn, "deriv": dv, "conns": conns, "params": par}, **kw)
            n0 = len(N.fr.raises)
            o = N.I.instantiate(cls, [], a, N.st, N.fr)
            exc = [n for pc, n, _ in N.fr.raises[n0:] if pc is not False]
            del N.fr.raises[n0:]
            N.st.pc = True
            return o, exc
        u, exc = new()
        refused(ctx, exc, None, "a user defined equation", w)
        for a, v in (("label", "u"), ("func", fn), ("deriv", dv), ("conns", conns), ("params", par)):
            ctx.check(N.get(u, a) == v, "a user defined equation holds its %s" % a, w, "is %s" % (N.get(u, a),))
        for t, kw in (("a number as label", {"label": num(7)}), ("a tuple of connections", {"conns": (sym("c1"),)}), ("one connection instead of a list", {"conns": u}),
                      ("a list of parameters", {"params": N.list(num(1))}), ("text as latex", {"latex": "x"})):
            _, exc = new(**kw)
            refused(ctx, exc, "TypeError", "a user defined equation with " + t, w)
        u2, u3 = new(label="u")[0], new(label="v")[0]
        f = N.meth(nw, "add_ude")
        for t, a, exc in (("a user defined equation", u, None), ("a user defined equation twice", u2, "ValueError"), ("a second user defined equation", u3, None), ("text as equation", "u", "TypeError")):
            _, got = call(N, f, a)
            N.st.pc = True
            refused(ctx, got, exc, "adding " + t, where(f))
        held = lambda: {k: N.I.dict_get(N.st, N.get(nw, "user_defined_eq"), k) for k in keys(N, N.get(nw, "user_defined_eq")) if N.I.dict_get(N.st, N.get(nw, "user_defined_eq"), k) is not MISSING}
        ctx.check(held() == {"u": u, "v": u3}, "the network holds the added equations", where(f), "holds %s" % held())
        f = N.meth(nw, "del_ude")
        _, got = call(N, f, u)
        ctx.check(not got and held() == {"v": u3}, "a deleted equation is no longer part of the network", where(f), "holds %s %s" % (held(), got))
    with ctx.guard("access by label"):
        N, V = setup(P)
        nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
        so, tu, si = build(N, "Source", "so"), build(N, "Turbine", "tu"), build(N, "Sink", "si")
        mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
        c1, c2 = mk(so, "out1", tu, "in1", "1"), mk(tu, "out1", si, "in1", "2")
        scls = P.classes["Subsystem"]
        ctx.units.add(scls.module.rel)
        f = N.meth(nw, "add_subsys")
        # the conns of a subsystem are added with their components
        sub = N.fake("sub", conns=N.dict([("x", c1), ("y", c2)]), label="sub")
        _, got = call(N, f, sub)
        refused(ctx, got, None, "adding a subsystem", where(f))
        ctx.check(objs(N, nw)[0] == {"1": c1, "2": c2}, "the network holds the connections of an added subsystem", where(f), "holds %s" % (objs(N, nw),))
        call(N, N.meth(nw, "check_network"))
        N.st.pc = True
        for m, have in (("get_conn", {"1": c1, "2": c2}), ("get_comp", {"so": so, "tu": tu, "si": si})):
            f = N.meth(nw, m)
            for l in sorted(set(have) | {"tux", "3", "so", "1"}):
                v, got = call(N, f, l)
                N.st.pc = True
                ctx.check(v == have.get(l) and not got, "Network.%s(%r)" % (m, l), where(f), "is %s %s" % (v, got))
        b = build(N, "Bus", "b")
        for o, name, known in ((tu, "Turbine", ("label", "eta_s", "P", "pr", "inl", "design")), (c1, "Connection", ("label", "m", "p", "fluid", "source")), (b, "Bus", ("label", "P", "comps")), (nw, "Network", ("T_unit", "conns"))):
            f = N.meth(o, "get_attr")
            for a in known:
                v, got = call(N, f, a)
                N.st.pc = True
                x = N.get(o, a)
                ctx.check(not got and (v == x if isinstance(v, (Ref, str, bool)) or v is None else image(N, v) == image(N, x)), "%s.get_attr(%s)" % (name, a), where(f), "is %s %s" % (v, got))
            _, got = call(N, f, "nonsense")
            N.st.pc = True
            refused(ctx, got, "KeyError", "%s.get_attr(nonsense)" % name, where(f))
    with ctx.guard("labels of subsystems"):
        N, V = setup(P)
        f = P.classes["Subsystem"].find("__init__")
        w = where(FuncV(f[1], f[0].module, f[0], None))
        N.I.intrinsics["tespy.components.subsystem.Subsystem.create_comps"] = lambda *a: None
        N.I.intrinsics["tespy.components.subsystem.Subsystem.create_conns"] = lambda *a: None
        for l, exc in (("sub", None), (num(7), "ValueError"), ("a;b", "ValueError"), ("a, b", "ValueError"), ("a.b", "ValueError")):
            n0 = len(N.fr.raises)
            N.I.instantiate(P.classes["Subsystem"], [l], {}, N.st, N.fr)
            got = [n for pc, n, _ in N.fr.raises[n0:] if pc is not False]
            del N.fr.raises[n0:]
            N.st.pc = True
            refused(ctx, got, exc, "a subsystem labelled %s" % l, w)


def topology(ctx, P):
    """check_network"""
    def case(key, build_, exc, need=None):
        with ctx.guard(key):
            N, V = setup(P)
            nw = N.I.instantiate(P.classes["Network"], [], {"iterinfo": False}, N.st, N.fr)
            mk = lambda a, i, b, o, l: N.I.instantiate(P.classes["Connection"], [a, i, b, o], {"label": l}, N.st, N.fr)
            cs = build_(N, mk)
            _, got = call(N, N.meth(nw, "add_conns"), *cs)
            if not got:
                f = N.meth(nw, "check_network")
                _, got = call(N, f)
            refused(ctx, got, exc, key, where(N.meth(nw, "check_network")))
            if exc is None and not got:
                ctx.check(N.get(nw, "checked") is True, key + ": is marked as checked", where(f), "is not")
                for o in {x for c in cs for x in (N.get(c, "source"), N.get(c, "target"))}:
                    for side, at, port in (("inl", "target", "inlets"), ("outl", "source", "outlets")):
                        ids = N.st.heap[(call(N, N.meth(o, port))[0].oid, "#")] if isinstance(call(N, N.meth(o, port))[0], Ref) else ()
                        want = []
                        for i in ids:
                            want += [c for c in cs if N.get(c, at) == o and N.get(c, at + "_id") == i]
                        got_ = list(N.st.heap[(N.get(o, side).oid, "#")])
                        ctx.check(got_ == want, "%s: %s of %s follow the order of its ports" % (key, side, kind(o)), where(f), "are %s" % [N.get(c, "label") for c in got_])
    B = build

    def hx(order):
        def f(N, mk):
            h = B(N, "HeatExchanger", "hx")
            so, so2, si, si2 = B(N, "Source", "so"), B(N, "Source", "so2"), B(N, "Sink", "si"), B(N, "Sink", "si2")
            c = [mk(so, "out1", h, "in1", "1"), mk(h, "out1", si, "in1", "2"), mk(so2, "out1", h, "in2", "3"), mk(h, "out2", si2, "in1", "4")]
            return [c[i] for i in order]
        return f
    case("complete network", hx((0, 1, 2, 3)), None)
    case("complete network, other order of connections", hx((3, 2, 1, 0)), None)
    case("network without connections", lambda N, mk: [], "TESPyNetworkError")
    case("an inlet without connection", hx((0, 1, 3)), "TESPyNetworkError")
    case("an outlet without connection", hx((0, 1, 2)), "TESPyNetworkError")

    def twice(target):
        def f(N, mk):
            so, so2, si, si2 = B(N, "Source", "so"), B(N, "Source", "so2"), B(N, "Sink", "si"), B(N, "Sink", "si2")
            if target:
                return [mk(so, "out1", si, "in1", "1"), mk(so2, "out1", si, "in1", "2")]
            return [mk(so, "out1", si, "in1", "1"), mk(so, "out1", si2, "in1", "2")]
        return f
    case("an inlet connected twice", twice(True), "TESPyNetworkError")
    case("an outlet connected twice", twice(False), "TESPyNetworkError")

    def merge(N, mk):
        m = B(N, "Merge", "m")
        N.I.call(N.meth(m, "set_attr"), [], {"num_in": num(3)}, N.st, N.fr)
        s = [B(N, "Source", "so%d" % i) for i in range(3)]
        return [mk(x, "out1", m, "in%d" % (i + 1), "c%d" % i) for i, x in reversed(list(enumerate(s)))] + [mk(m, "out1", B(N, "Sink", "si"), "in1", "o")]
    case("merge with three inlets", merge, None)

    def splitter(N, mk):
        m = B(N, "Splitter", "m")
        N.I.call(N.meth(m, "set_attr"), [], {"num_out": num(3)}, N.st, N.fr)
        s = [B(N, "Sink", "si%d" % i) for i in range(3)]
        return [mk(m, "out%d" % (i + 1), x, "in1", "c%d" % i) for i, x in ((1, s[1]), (2, s[2]), (0, s[0]))] + [mk(B(N, "Source", "so"), "out1", m, "in1", "o")]
    case("splitter with three outlets", splitter, None)


def run(ctx):
    ctx.rule = "set_attr and the constructors change exactly the specified item or raise the documented exception"
    P = program(STUBS)
    components(ctx, P)
    connections(ctx, P)
    busses(ctx, P)
    networks(ctx, P)
    lookups(ctx, P)
    topology(ctx, P)
    ctx.floor("specification cases", ctx.counts.get("specification cases", 0), 700)
    return EXPL
