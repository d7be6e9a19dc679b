"""The system of equations is assembled without losing, duplicating or
misplacing an equation or a variable."""
import itertools

from .. import dd
from ..configs import shared
from ..common import program, models, where, spec
from ..interp import MISSING, UNDEF, OBJS, Ref, num, sym, new_obj, BoundV, Maybe, ExtV, ClassV
from ..jac import residual_rows
from ..model import undecided, Model
from ..net import NetModel, const, cell
from ..poly import R, ZERO
from .c01 import short

EXPL = ("Row and column bookkeeping is interpreted on abstract networks: number of residual rows of every component equation against "
        "the declared number; Component/Connection preprocess and solve on containers with opaque equations; the four assembly "
        "routines of the network on abstract components, connections, busses and user defined equations; numbering of variables, "
        "application of the Newton step and the determination test.")
NW = "src/tespy/networks/network.py"


def run(ctx):
    ctx.rule = ("every equation has its own rows, its derivatives stand in the same rows, every variable its own column, counts agree "
                "with what is assembled")
    P = program()
    rows(ctx, P)
    for part in (component_solve, class_preprocess, user_equation, connection_solve, assembly, numbering, update, determination, newton):
        with ctx.guard(part.__name__):
            part(ctx, P)
    ctx.floor("component equations with decided row count", ctx.counts.get("component equations", 0), 150)
    return EXPL


# --- rows of component equations ---------------------------------------------
def rows(ctx, P):
    for c, tag, m in models(ctx, P, thorough=ctx.tier == "thorough", more=(shared,)):
        eqs = []
        with ctx.guard("equations of %s [%s]" % (c.name, tag)):
            eqs = m.equations()
        for eq in eqs:
            key = "rows of %s.%s%s" % (c.name, eq[0], " [%s]" % tag if tag else "")
            with ctx.guard(key):
                val, st, exc = m.run(eq[1], [], eq[3])

                def cnt(v):
                    if isinstance(v, R):
                        return 1
                    if isinstance(v, (Ref, tuple)):
                        it = m.I.iterate(v, st)
                        if it is None or any(isinstance(x, Maybe) for x in it):
                            return None
                        return len(it)
                    return None
                n = dd.apply(cnt, dd.restrict(val, st.assume))
                want = dd.restrict(eq[4], st.assume)

                def leaf(a, b):
                    b = const(b) if isinstance(b, R) else int(b) if isinstance(b, bool) else None
                    if a is None or b is None:
                        return "?"
                    # a function is not evaluated when no equation is declared
                    return a == b or (b == 0 and eq[6] == "constraint")
                ls = {l for _, l in dd.leaves(dd.apply(leaf, n, want))}
                ok = False if False in ls else None if "?" in ls else True
                if ok is True:
                    ctx.count("component equations")
                ctx.check(ok, key, where(eq[1]),
                          "the residual has %s rows, %s are declared and reserved" % (short(n), short(want)))


# --- Component.preprocess / solve --------------------------------------------
def component_solve(ctx, P):
    CP, SD, GP = "ComponentProperties", "SimpleDataContainer", "GroupedComponentProperties"
    comp = P.classes["Component"]
    pats = list(itertools.product([False, True], repeat=4)) if ctx.tier == "thorough" else \
        [(True, True, True, True), (False, True, False, True), (True, False, True, False), (False, False, False, False)]
    for pat in pats:
        key = "component solve, parameters set %s" % (pat,)
        with ctx.guard(key):
            N = NetModel(P)
            eqn = {}

            def cont(cls, name, is_set, n=1, **kw):
                eqn[name] = (n, is_set)
                return N.new(cls, func=ExtV("F_" + name), deriv=ExtV("D_" + name), num_eq=num(n), is_set=is_set, **kw)
            pars = N.dict([
                ("a", cont(CP, "a", pat[0], is_var=True, val=sym("a"))),
                ("b", N.new(CP, is_set=True, val=sym("b"))),                       # no equation of its own
                ("c", cont(SD, "c", pat[1], 2)),
                ("e", N.new(CP, is_set=pat[2], val=sym("e"), is_var=pat[3])),
                ("g", cont(GP, "g", pat[2], 1, elements=N.list("b", "e"))),
                ("d", cont(CP, "d", pat[3], val=sym("d"))),
            ])
            cons = N.dict([(k, N.dict([("func", ExtV("F_" + k)), ("deriv", ExtV("D_" + k)), ("constant_deriv", cd), ("num_eq", num(n))]))
                           for k, n, cd in (("k1", 2, True), ("k2", 0, True), ("k3", 1, False), ("k4", 3, True), ("k5", 2, False))])
            for k, n in (("k1", 2), ("k2", 0), ("k3", 1), ("k4", 3), ("k5", 2)):
                eqn[k] = (n, True)
            o = new_obj("object", comp, path="comp")
            N.set(o, "label", "comp")
            N.set(o, "parameters", pars)
            for _, k, v in N.I.dict_items(N.st, pars):
                N.set(o, k, v)
            N.I.intrinsics["tespy.components.component.Component.get_mandatory_constraints"] = lambda *a: cons
            f = N.meth(o, "preprocess")
            _, exc = N.run(o, "preprocess", num(7))
            dcalls = _calls(N, "D_")
            total = sum(n for n, s in eqn.values() if s)
            ne = N.get(o, "num_eq")
            ctx.check(_eq(ne, total), key + ": number of equations", where(f), "num_eq is %s, the set equations have %d rows" % (ne, total))
            nv = [k for k, s in (("a", True), ("e", pat[3])) if s]
            cols = {k: const(N.get(N.get(o, k), "J_col")) for k in nv}
            ok = sorted(x for x in cols.values() if x is not None) == [7 + i for i in range(len(nv))] and \
                _eq(N.get(o, "num_vars"), len(nv))
            ctx.check(ok, key + ": columns of component variables", where(f), "columns %s, expected distinct columns from 7 on" % (cols,))
            fs = N.meth(o, "solve")
            _, exc2 = N.run(o, "solve", sym("all_false"))
            dcalls += _calls(N, "D_")
            res = {cell(k): v for k, v in N.array(N.get(o, "residual")).items()}
            ctx.check(not [e for e in exc + exc2 if e[0] is True], key + ": no failure", where(fs), "raises %s" % (exc + exc2,))
            used = {}
            for name, (n, s) in eqn.items():
                at = [k for k, v in res.items() if _is_value_of(v, "F_" + name)]
                dk = {const(a[-1]) for (nm, a) in dcalls if nm == "D_" + name}
                kk = "%s: rows of equation %s" % (key, name)
                if not s or n == 0:
                    ctx.check(not at and not (dk and s is False), kk, where(fs), "an equation which is not set is evaluated")
                    continue
                at = sorted(at)
                ok = len(at) == n and at == list(range(at[0], at[0] + n)) and dk == {at[0]}
                ctx.check(ok, kk, where(fs), "residual in rows %s, derivatives start at row %s" % (at, sorted(dk, key=str)))
                for r in at:
                    used.setdefault(r, []).append(name)
            ctx.check(sorted(used) == list(range(total)) and all(len(x) == 1 for x in used.values()), key + ": rows used once",
                      where(fs), "rows %s of %d" % (used, total))
            ctx.count("component solve patterns")


def user_equation(ctx, P):
    """A user defined equation delivers what the user's functions give for it."""
    cls = P.classes["UserDefinedEquation"]
    key = "user defined equation"
    with ctx.guard(key):
        N = NetModel(P)
        seen = []

        def fun(I, a, k, st, fr):
            seen.append(("func", a[0] if a else k.get("ude")))
            return sym("user_residual")

        def der(I, a, k, st, fr):
            seen.append(("deriv", a[0] if a else k.get("ude")))
        N.I.intrinsics["ext:user_func"] = fun
        N.I.intrinsics["ext:user_deriv"] = der
        conn = N.fake("conn")
        u = N.I.instantiate(cls, ["u", N.I.ext("user_func"), N.I.ext("user_deriv"), N.list(conn)], {}, N.st, N.fr)
        N.set(u, "jacobian", N.dict([]))
        f = N.meth(u, "solve")
        _, exc = N.run(u, "solve")
        ctx.check(not [e for e in exc if e[0] is not False] and _is_sym(N.get(u, "residual"), "user_residual"), key + ": residual", where(f),
                  "residual is %s" % short(N.get(u, "residual")))
        ctx.check(("deriv", u) in seen and ("func", u) in seen and all(x[1] is u for x in seen), key + ": functions called with the equation", where(f), "%s" % (seen,))
        calls = []
        N.I.intrinsics["tespy.tools.helpers._numeric_deriv"] = lambda I, a, k, st, fr, fv: calls.append((a, k)) or sym("slope")
        f = N.meth(u, "numeric_deriv")
        v, exc = N.run(u, "numeric_deriv", "p", conn)
        ok = len(calls) == 1 and len(calls[0][0]) == 4 and calls[0][0][2] == "p" and calls[0][0][3] is conn and calls[0][1].get("ude") is u
        ctx.check(_is_sym(v, "slope") and ok if calls else None, key + ": numerical derivative", where(f), "%s" % (calls,))
        ctx.count("user defined equations")


def _is_sym(v, name):
    return isinstance(v, R) and v == sym(name)


# parameters which have to be known and become variables if they are not specified
ADDED = {("CombustionEngine", "P"), ("CombustionEngine", "Qloss"), ("FuelCell", "P"), ("WaterElectrolyzer", "P")}


def class_preprocess(ctx, P):
    """The preparation of every component class counts its equations and
    numbers its variables from the number it is handed."""
    from ..common import concrete
    from ..configs import configs
    for c in concrete(P):
        key = "preparation of %s" % c.name
        with ctx.guard(key):
            m = Model(P, c, **next(iter(configs(c)))[1])
            I = m.I
            I.intrinsics.pop("tespy.components.component.Component.preprocess", None)
            I.intrinsics["tespy.tools.characteristics.load_default_char"] = lambda *a: sym("default_char")
            pars = [(k, m.param(k)) for k in m.param_names]
            eqs = m.equations()
            f = m.meth(m.self, "preprocess")
            n0 = sym("n0") * num(2) + num(1)
            for on in (False, True):
                tag = "%s, every parameter %s" % (key, "specified and variable" if on else "free")
                save, m.st = m.st, m.st.copy()
                try:
                    cols = []
                    for k, o in pars:
                        I.setattr_(o, "is_set", on, m.st, m.fr)
                        if OBJS[o.oid].cls.name == "ComponentProperties":
                            I.setattr_(o, "is_var", on, m.st, m.fr)
                            if on:
                                cols.append((k, o))
                    _, st, exc = m.run(f, [n0], {})
                    want = num(0)
                    for e in eqs:
                        use = True if e[6] == "constraint" else I.getattr_(m.param(e[0]), "is_set", st, m.fr)
                        want = dd.apply(lambda x, y, u: x if u is False else "?" if u is not True else x + y
                                        if isinstance(x, R) and isinstance(y, R) else "?", want, _int(e[4]), use)
                    if not on:
                        # power, heat loss not specified: variables of the system
                        cols = [(k, o) for k, o in pars if (c.name, k) in ADDED]
                    ctx.check(not [e for e in exc if e[0] is True], tag + ": no failure", where(f), "raises %s" % (exc,))
                    ne = I.getattr_(m.self, "num_eq", st, m.fr)
                    ctx.check(_same(ne, dd.restrict(want, st.assume)), tag + ": equations counted", where(f),
                              "num_eq is %s, the equations in use have %s rows" % (short(ne), short(want)))
                    got = {k: I.getattr_(o, "J_col", st, m.fr) for k, o in cols}
                    at = sorted((const(v - n0) if isinstance(v, R) else None) is None and -1 or int(const(v - n0)) for v in got.values())
                    ctx.check(at == list(range(len(cols))) and _eq(I.getattr_(m.self, "num_vars", st, m.fr), len(cols)),
                              tag + ": variables numbered", where(f),
                              "columns %s, expected %d distinct columns from the given number on" % ({k: short(v) for k, v in got.items()}, len(cols)))
                finally:
                    m.st = save
            if "subcooling" in m.param_names:
                o = m.param("subcooling")
                for sub in (False, True):
                    save, m.st = m.st, m.st.copy()
                    try:
                        I.setattr_(o, "val", sub, m.st, m.fr)
                        I.setattr_(o, "is_set", sub, m.st, m.fr)
                        _, st, exc = m.run(f, [n0], {})
                        got = I.getattr_(o, "is_set", st, m.fr)
                        ctx.check(True if got is (not sub) else False if isinstance(got, bool) else None,
                                  "%s: saturated outlet is required %s subcooling" % (key, "without" if not sub else "unless there is"),
                                  where(f), "with subcooling=%s the equation is %s" % (sub, "in use" if got is True else short(got)))
                    finally:
                        m.st = save
            ctx.count("prepared component classes")
    ctx.floor("prepared component classes", ctx.counts.get("prepared component classes", 0), 25)


def _int(v):
    return dd.apply(lambda x: num(int(x)) if isinstance(x, (bool, int)) else x, v)


def _same(a, b):
    def leaf(x, y):
        return (x - y).is_zero() if isinstance(x, R) and isinstance(y, R) else None
    ls = {l for _, l in dd.leaves(dd.apply(leaf, a, b))}
    return False if False in ls else None if None in ls else True


def _calls(N, prefix):
    out = []
    for f, a, k in N.calls:
        if isinstance(f, str) and f.startswith(prefix):
            out.append((f, a))
    return out


def _is_value_of(v, fname):
    if not isinstance(v, R):
        return False
    s = str(v)
    return s == "%s()" % fname or ("%s()" % fname) in s


def _eq(v, n):
    return isinstance(v, R) and v.is_const() and v.const_val() == n


# --- Connection.preprocess / solve --------------------------------------------
def new_conn(N, P, label="c"):
    """A connection made by the class's own constructor."""
    ends = []
    for cls in ("Source", "Sink"):
        o = new_obj("object", P.classes[cls], path=cls)
        N.set(o, "label", cls)
        ends.append(o)
    return N.I.instantiate(P.classes["Connection"], [ends[0], "out1", ends[1], "in1"], {"label": label}, N.st, N.fr)


def connection_solve(ctx, P):
    N = NetModel(P)
    pr = N.get(new_conn(N, P), "parameters")
    names = [k for _, k, _ in N.I.dict_items(N.st, pr)]
    import random
    rnd = random.Random(1)
    pats = [dict.fromkeys(names, (True, False)), dict.fromkeys(names, (False, False))]
    for i in range(40 if ctx.tier == "thorough" else 10):
        pats.append({k: rnd.choice([(False, False), (True, False), (True, True)]) for k in names})
    for i, pat in enumerate(pats):
        key = "connection equations, pattern %d" % i
        with ctx.guard(key):
            N = NetModel(P)
            c = new_conn(N, P)
            want_n = {}
            for k in names:
                d = N.get(c, k)
                N.set(d, "is_set", pat[k][0])
                N.set(d, "_solved", pat[k][1])
                N.set(d, "func", ExtV("F_" + k))
                N.set(d, "deriv", ExtV("D_" + k))
                if pat[k] == (True, False):
                    want_n[k] = const(N.get(d, "num_eq"))
            for k in ("m", "p", "h"):
                N.set(N.get(c, k), "is_set", rnd.random() < 0.5)
            f = N.meth(c, "preprocess")
            _, exc = N.run(c, "preprocess")
            want = set(want_n)
            total = sum(want_n.values())
            ctx.check(_eq(N.get(c, "num_eq"), total), key + ": number of equations", where(f),
                      "%s for the specifications %s" % (N.get(c, "num_eq"), sorted(want)))
            fs = N.meth(c, "solve")
            _, exc2 = N.run(c, "solve", sym("all_false"))
            fc, dc = {}, {}
            for nm, a in _calls(N, "F_"):
                fc.setdefault(nm[2:], set()).add(const(a[0]))
            for nm, a in _calls(N, "D_"):
                dc.setdefault(nm[2:], set()).add(const(a[0]))
            ctx.check(set(fc) == want and fc == dc, key + ": set specifications are the evaluated equations", where(fs),
                      "residuals in rows %s, derivatives in rows %s, specified %s" % (fc, dc, sorted(want)))
            allr = sorted(r for s in fc.values() for r in s)
            ctx.check(allr == list(range(total)), key + ": rows used once", where(fs), "rows %s" % (allr,))
            left = [k for k in names if N.get(N.get(c, k), "_solved") is not False]
            ctx.check(not left, key + ": presolved mark is cleared", where(f), "mark left on %s" % left)
            ctx.count("connection specification patterns")
    ctx.floor("connection specification kinds", len(names), 8)


# --- assembly in the network ------------------------------------------------
def block(N, name, n, cols, scalar=False):
    res = [sym("r_%s_%d" % (name, i)) for i in range(n)]
    jac = [((num(i) if not scalar else None, num(c)), sym("j_%s_%d_%d" % (name, i, c))) for i in range(n) for c in cols]
    o = N.fake(name, num_eq=num(n), it=num(0), label=name)
    N.set(o, "residual", res[0] if scalar else N.list(*res))
    N.set(o, "jacobian", N.dict([((k if not scalar else k[1]), v) for k, v in jac]))
    return o


def assembly(ctx, P):
    sizes = [dict(c=[2, 1, 0, 3], k=[1, 0, 2], b=[1, 0, 1], u=2),
             dict(c=[1], k=[1], b=[0], u=0),
             dict(c=[0, 2], k=[0, 0, 3], b=[1], u=1)]
    for i, z in enumerate(sizes):
        N = NetModel(P)
        nw = N.nw
        exp = []
        comps, conns, busses, udes = [], [], [], []
        for q, n in enumerate(z["c"]):
            comps.append(block(N, "comp%d" % q, n, (q, q + 1)))
            exp += [("comp%d" % q, r, (q, q + 1)) for r in range(n)]
        for q, n in enumerate(z["k"]):
            conns.append(block(N, "conn%d" % q, n, (q,)))
            exp += [("conn%d" % q, r, (q,)) for r in range(n)]
        for q, s in enumerate(z["b"]):
            b = block(N, "bus%d" % q, 1, (q, 3), True)
            N.set(b, "P", N.fake("bus%d.P" % q, is_set=bool(s)))
            busses.append(b)
            if s:
                exp += [("bus%d" % q, 0, (q, 3))]
        for q in range(z["u"]):
            udes.append(block(N, "ude%d" % q, 1, (q, 2), True))
            exp += [("ude%d" % q, 0, (q, 2))]
        n = len(exp)
        N.set(nw, "num_comp_eq", num(sum(z["c"])))
        N.set(nw, "num_conn_eq", num(sum(z["k"])))
        N.set(nw, "num_bus_eq", num(sum(z["b"])))
        N.set(nw, "num_ude_eq", num(z["u"]))
        N.set(nw, "num_vars", num(n))
        N.set(nw, "comps", N.dict([("object", N.list(*comps))]))
        N.set(nw, "conns", N.dict([("object", N.list(*conns))]))
        N.set(nw, "busses", N.dict([("bus%d" % q, b) for q, b in enumerate(busses)]))
        N.set(nw, "user_defined_eq", N.dict([("ude%d" % q, b) for q, b in enumerate(udes)]))
        N.set(nw, "increment_filter", sym("all_false"))
        R0, J0 = N.zeros(n), N.zeros(n, n)
        N.set(nw, "residual", R0)
        N.set(nw, "jacobian", J0)
        f = N.meth(nw, "solve_control")
        N.I.intrinsics["tespy.networks.network.Network.matrix_inversion"] = lambda *a: None
        N.I.intrinsics["tespy.networks.network.Network.update_variables"] = lambda *a: None
        N.I.intrinsics["tespy.networks.network.Network.check_variable_bounds"] = lambda *a: None
        N.set(nw, "lin_dep", False)
        _, exc = N.run(nw, "solve_control")
        key = "assembly %d" % i
        ctx.check(not exc, key + ": no failure", where(f), "raises %s" % (exc,))
        res = {cell(k): v for k, v in N.array(N.get(nw, "residual")).items()}
        jac = {cell(k): v for k, v in N.array(N.get(nw, "jacobian")).items()}
        bad_key = [k for k in list(res) + list(jac) if k is None or isinstance(k, tuple) and None in k]
        if bad_key:
            ctx.open(key, "stores at positions the analysis does not resolve")
            continue
        rowof = {}
        for k, v in res.items():
            rowof.setdefault(str(v), []).append(k)
        expj = {}
        for name, r, cols in exp:
            kk = "%s: residual %d of %s" % (key, r, name)
            at = rowof.pop("r_%s_%d" % (name, r), [])
            ctx.check(len(at) == 1 and 0 <= at[0] < n, kk, NW + " (solve_*)", "placed in rows %s of %d" % (at, n))
            for c in cols:
                ats = [k for k, v in jac.items() if str(v) == "j_%s_%d_%d" % (name, r, c)]
                ctx.check(len(at) == 1 and ats == [(at[0], c)], "%s: derivative of row %d of %s w.r.t. %d" % (key, r, name, c),
                          NW + " (solve_*)", "placed at %s, its residual is in row %s" % (ats, at))
        extra = [k for k in rowof if k not in ("0",)]
        ctx.check(not extra, key + ": nothing else in the residual", NW, "holds %s" % extra)
        for o in comps + conns:
            with ctx.guard(key + " iteration counter"):
                ctx.check(_eq(N.get(o, "it"), 1), "%s: iteration counter of %s" % (key, OBJS[o.oid].path), NW, "is not advanced")
        # every object is evaluated exactly once per iteration
        ev = [str(fn) for fn, a, k in N.calls if isinstance(fn, R) and str(fn).endswith(".solve")]
        want = [o for o in comps + conns + udes] + [b for b, s in zip(busses, z["b"]) if s]
        for o in want:
            nm = OBJS[o.oid].path
            ctx.check(ev.count(nm + ".solve") == 1, "%s: %s evaluated once" % (key, nm), NW, "evaluated %d times" % ev.count(nm + ".solve"))


# --- numbering of variables ----------------------------------------------------
def numbering(ctx, P):
    rnd = __import__("random").Random(2)
    pats = []
    for mode in ("init_design", "init_offdesign"):
        for t in range(20 if ctx.tier == "thorough" else 6):
            pats.append((mode, t))
    for mode, t in pats:
        N = NetModel(P)
        nw = N.nw
        key = "variable numbering in %s, pattern %d" % (mode, t)
        f = N.meth(nw, mode)
        conns, expect = [], []
        shared = None
        seen = []
        neq = 0
        for i in range(4):
            cont = {}
            for k in ("m", "p", "h"):
                is_set = rnd.random() < (0 if t == 0 else 0.4)
                solved = (not is_set) and k != "m" and rnd.random() < (0 if t == 0 else 0.3)
                cont[k] = N.new("FluidProperties", is_set=is_set)
                N.set(cont[k], "is_var", True)
                N.set(cont[k], "_solved", solved)
                N.set(cont[k], "design", sym("nan"))
            if i == 2:
                cont["m"] = shared
            if i == 0:
                shared = cont["m"]
            ne = i
            fl = N.fake("c%d.fluid" % i, is_var=N.I.new_set(N.st, []), design=N.dict([]))
            c = N.fake("c%d" % i, label="c%d" % i, fluid=fl, design=N.list(), offdesign=N.list(), local_offdesign=False, local_design=False,
                       design_path=None, new_design=False, num_eq=num(ne), property_data=N.dict([]), **cont)
            N.set(c, "get_attr", None)
            conns.append((c, cont))
            for k in ("m", "p", "h"):
                if cont[k] in [x[2] for x in seen]:
                    continue
                st_, so_ = N.get(cont[k], "is_set"), N.get(cont[k], "_solved")
                seen.append((c, k, cont[k], not st_ and not so_))
        for c, cont in conns:
            # get_attr of a connection returns the attribute
            N.st.heap.pop((c.oid, "a", "get_attr"), None)
            OBJS[c.oid].cls = P.classes["Connection"]
        for q in ("simplify_specifications", "preprocess"):
            N.I.intrinsics["tespy.connections.connection.Connection." + q] = lambda *a: None
        comps = []
        ci = []
        N.I.intrinsics["tespy.components.component.Component.set_parameters"] = lambda *a: None

        def pre(I, args, kw, st, fr, fv):
            cp, n0 = args[0], args[1]
            i = comps.index(cp)
            vs = [N.fake("v%d_%d" % (i, q)) for q in range((i * 2) % 3)]
            for q, v in enumerate(vs):
                I.setattr_(v, "J_col", n0 + num(q), st, fr)
            I.setattr_(cp, "vars", I.new_dict(st, [(v, "var%d" % q) for q, v in enumerate(vs)]), st, fr)
            I.setattr_(cp, "num_vars", num(len(vs)), st, fr)
            I.setattr_(cp, "num_eq", num(i + 1), st, fr)
            ci.extend((cp, v, "var%d" % q) for q, v in enumerate(vs))
            return None
        N.I.intrinsics["tespy.components.component.Component.preprocess"] = pre
        for i in range(4):
            cp = new_obj("object", P.classes["Component"], path="cp%d" % i)
            for k, v in dict(label="cp%d" % i, design=N.list(), offdesign=N.list(), local_offdesign=False, local_design=False,
                             design_path=None, new_design=False, parameters=N.dict([])).items():
                N.set(cp, k, v)
            comps.append(cp)
        N.set(nw, "comps", N.dict([("object", N.list(*comps))]))
        N.set(nw, "conns", N.dict([("object", N.list(*[c for c, _ in conns]))]))
        busses = []
        for i, s in enumerate((True, False, True)):
            busses.append(N.fake("b%d" % i, label="b%d" % i, P=N.fake("b%d.P" % i, is_set=s), comps=N.dict([])))
        N.set(nw, "busses", N.dict([("b%d" % i, b) for i, b in enumerate(busses)]))
        N.set(nw, "specifications", N.dict([("Component", N.dict([])), ("lookup", N.dict([]))]))
        for k in ("num_bus_eq", "num_comp_eq", "num_conn_eq", "num_vars", "num_comp_vars"):
            N.set(nw, k, num(0))
        N.set(nw, "num_conn_vars", num(2))            # two composition variables before
        N.set(nw, "variables_dict", N.dict([(num(0), "f0"), (num(1), "f1")]))
        N.set(nw, "redesign", False)
        N.set(nw, "mode", "design" if mode == "init_design" else "offdesign")
        _, exc = N.run(nw, mode)
        nvar = [s for s in seen if s[3]]
        cols = {}
        vd = {const(k): v for k, v in N.array(N.get(nw, "variables_dict")).items()}
        for c, k, cont, isv in seen:
            nm = "%s: %s of %s" % (key, k, OBJS[c.oid].path)
            iv = N.get(cont, "is_var")
            if not isv:
                ctx.check(iv is False, nm + " is no variable", where(f), "is_var is %s although the value is known" % (iv,))
                continue
            j = const(N.get(cont, "J_col"))
            ent = vd.get(j)
            ok = iv is True and j is not None and j not in cols and isinstance(ent, Ref) and \
                N.I.dict_get(N.st, ent, "obj") == c and N.I.dict_get(N.st, ent, "variable") == k
            cols[j] = nm
            ctx.check(ok, nm + " has its own column", where(f), "column %s, registered as %s" % (j, ent))
        nconn = 2 + len(nvar)
        ctx.check(_eq(N.get(nw, "num_conn_vars"), nconn), key + ": number of connection variables", where(f),
                  "%s counted, %d present" % (N.get(nw, "num_conn_vars"), nconn))
        ok = True
        for cp, v, name in ci:
            j = const(N.get(v, "J_col"))
            ent = vd.get(j)
            if j is None or j in cols or not isinstance(ent, Ref) or N.I.dict_get(N.st, ent, "obj") != v or \
                    N.I.dict_get(N.st, ent, "variable") != name:
                ok = False
            cols[j] = name
        ctx.check(ok, key + ": component variables have their own columns", where(f), "columns %s" % sorted(cols, key=str))
        ctx.check(sorted(cols, key=str) == sorted(range(2, nconn + len(ci)), key=str), key + ": columns are contiguous", where(f), "%s" % sorted(cols, key=str))
        ctx.check(_eq(N.get(nw, "num_comp_vars"), len(ci)) and _eq(N.get(nw, "num_comp_eq"), 1 + 2 + 3 + 4), key + ": component counts",
                  where(f), "variables %s, equations %s" % (N.get(nw, "num_comp_vars"), N.get(nw, "num_comp_eq")))
        ctx.check(_eq(N.get(nw, "num_bus_eq"), 2), key + ": bus equations", where(f), "%s counted for two set busses" % (N.get(nw, "num_bus_eq"),))
    # connection equations
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "init_count_connections_parameters")
    with ctx.guard("connection equations counted"):
        N.set(nw, "num_conn_eq", num(5))
        c = N.fake("c", num_eq=num(3), label="c")
        N.set(nw, "all_fluids", N.list())
        N.run(nw, "init_count_connections_parameters", c)
        ctx.check(_eq(N.get(nw, "num_conn_eq"), 8), "connection equations are counted", where(f), "5 + 3 gives %s" % (N.get(nw, "num_conn_eq"),))
    with ctx.guard("composition variables numbered"):
        composition_numbering(ctx, P)


def composition_numbering(ctx, P):
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "presolve_fluid_topology")
    mains = []
    branches = []
    for b in range(2):
        cs = []
        for i in range(2):
            fl = N.new("FluidComposition")
            N.set(fl, "val", N.dict([("H2O", sym("x%d%d" % (b, i))), ("N2", sym("y%d%d" % (b, i)))]))
            N.set(fl, "is_set", N.I.new_set(N.st, []))
            N.set(fl, "is_var", N.I.new_set(N.st, []))
            for a in ("wrapper", "engine", "back_end", "J_col"):
                N.set(fl, a, N.dict([]))
            c = new_obj("object", P.classes["Connection"], path="c%d%d" % (b, i))
            N.set(c, "fluid", fl)
            N.set(c, "label", "c%d%d" % (b, i))
            N.set(c, "_potential_fluids", N.I.new_set(N.st, ["H2O", "N2"]))
            cs.append(c)
        mains.append(cs)
        branches.append(("b%d" % b, N.list(N.dict([("connections", N.list(*cs))]))))
    N.I.intrinsics["tespy.connections.connection.Connection.build_fluid_data"] = lambda *a: None
    N.set(nw, "fluid_branches", N.dict(branches))
    N.set(nw, "num_conn_vars", num(0))
    N.set(nw, "variables_dict", N.dict([]))
    N.run(nw, "presolve_fluid_topology")
    cols = []
    vd = {const(k): v for k, v in N.array(N.get(nw, "variables_dict")).items()}
    for b, cs in enumerate(mains):
        fl = N.get(cs[0], "fluid")
        ctx.check(N.get(cs[1], "fluid") == fl, "branch %d shares one composition" % b, where(f), "the connections keep separate compositions")
        for x in ("H2O", "N2"):
            j = const(N.I.dict_get(N.st, N.get(fl, "J_col"), x))
            ent = vd.get(j)
            ok = j is not None and j not in cols and isinstance(ent, Ref) and N.I.dict_get(N.st, ent, "obj") == cs[0] and \
                N.I.dict_get(N.st, ent, "variable") == "fluid" and N.I.dict_get(N.st, ent, "fluid") == x
            cols.append(j)
            ctx.check(ok, "composition variable %s of branch %d has its own column" % (x, b), where(f), "column %s registered %s" % (j, ent))
    ctx.check(sorted(cols, key=str) == [0, 1, 2, 3] and _eq(N.get(nw, "num_conn_vars"), 4), "composition variables are counted", where(f),
              "columns %s, counted %s" % (cols, N.get(nw, "num_conn_vars")))


# --- Newton step ------------------------------------------------------------------
def update(ctx, P):
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "update_variables")
    n = 6
    inc = [sym("dx%d" % i) for i in range(n)]
    N.set(nw, "increment", N.list(*inc))
    def c(path, **kw):
        o = new_obj("object", P.classes["Connection"], path=path)
        for k, v in kw.items():
            N.set(o, k, v)
        return o
    m = N.fake("m", val_SI=sym("m"), J_col=num(3))
    p = N.fake("p", val_SI=sym("p"), J_col=num(0))
    h = N.fake("h", val_SI=sym("h"), J_col=num(5))
    fl = N.fake("fl", val=N.dict([("A", sym("xA")), ("B", sym("xB"))]), J_col=N.dict([("A", num(1)), ("B", num(4))]))
    con = c("con", m=m, p=p, h=h, fluid=fl)
    v = N.fake("v", val=sym("v"), J_col=num(2), min_val=sym("vmin"), max_val=sym("vmax"))
    ent = lambda **k: N.dict(list(k.items()))
    vd = {0: ent(obj=con, variable="p"), 1: ent(obj=con, variable="fluid", fluid="A"), 2: ent(obj=v, variable="D"),
          3: ent(obj=con, variable="m"), 4: ent(obj=con, variable="fluid", fluid="B"), 5: ent(obj=con, variable="h")}
    N.set(nw, "variables_dict", N.dict([(num(k), e) for k, e in vd.items()]))
    _, exc = N.run(nw, "update_variables")

    class S:
        pass
    s = S()
    s.I, s.st, s.P, s.self = N.I, N.st, P, nw
    env = {k: sym(k) for k in ("m", "p", "h", "xA", "xB", "v", "vmin", "vmax")}
    env.update({"dx%d" % i: inc[i] for i in range(n)})
    err = "1e-06"
    want = {
        "mass flow": (N.get(m, "val_SI"), "m + dx3"),
        "enthalpy": (N.get(h, "val_SI"), "h + dx5"),
        "pressure": (N.get(p, "val_SI"), "p + dx0 / max(1, -2 * dx0 / p)"),
        "mass fraction A": (N.I.dict_get(N.st, N.get(fl, "val"), "A"), "0 if xA + dx1 < 1e-6 else (1 if xA + dx1 > 1 - 1e-6 else xA + dx1)"),
        "mass fraction B": (N.I.dict_get(N.st, N.get(fl, "val"), "B"), "0 if xB + dx4 < 1e-6 else (1 if xB + dx4 > 1 - 1e-6 else xB + dx4)"),
        "component variable": (N.get(v, "val"), "vmin if v + dx2 < vmin else (vmax if v + dx2 > vmax else v + dx2)"),
    }
    for k, (got, text) in want.items():
        w = spec(s, text, env)
        from ..common import same
        ctx.check(same(got, w), "Newton step of the %s" % k, where(f), "the variable becomes %s, not %s" % (short(got), text))


def newton(ctx, P):
    N = NetModel(P)
    nw = N.nw
    f = N.meth(nw, "matrix_inversion")
    J, r = sym("J"), sym("r")
    N.set(nw, "jacobian", J)
    N.set(nw, "residual", r)
    N.set(nw, "use_cuda", False)
    _, exc = N.run(nw, "matrix_inversion")
    inc = N.get(nw, "increment")
    ls = [l for _, l in dd.leaves(inc)]
    verdict = None
    for l in ls:
        q = linear_solve(l, J, r)
        if q is None:
            continue
        verdict = q if verdict is None else (verdict and q)
    ctx.check(verdict, "increment solves J * dx = -r", where(f), "increment is %s" % short(inc))


def linear_solve(l, J, r):
    """True if l denotes -inv(J) r, False if it denotes another multiple, None if not recognised"""
    from ..poly import diff, ONE
    if not isinstance(l, R):
        return None
    s = str(l).replace(" ", "")
    pos = {"numpy.linalg.inv(J).dot(r)", "numpy.dot(numpy.linalg.inv(J),r)", "numpy.linalg.solve(J,r)", "numpy.matmul(numpy.linalg.inv(J),r)",
           "scipy.linalg.solve(J,r)"}
    neg = {x.replace(",r)", ",-r)").replace("(r)", "(-r)") for x in pos} | {x.replace(",r)", ",-1*r)").replace("(r)", "(-1*r)") for x in pos}
    negpos = {"-" + x for x in pos} | {"-1*" + x for x in pos}
    if s in neg or s in negpos:
        return True
    if s in pos or s in {"-" + x for x in neg} | {"-1*" + x for x in neg}:
        return False
    return None


def determination(ctx, P):
    for nv, rej in ((7, False), (6, True), (8, True), (0, True)):
        N = NetModel(P)
        nw = N.nw
        f = N.meth(nw, "solve_determination")
        for k, v in (("num_comp_eq", 3), ("num_conn_eq", 2), ("num_bus_eq", 1)):
            N.set(nw, k, num(v))
        N.set(nw, "num_comp_vars", num(min(nv, 2)))
        N.set(nw, "num_conn_vars", num(nv - min(nv, 2)))
        bus = N.fake("bus", jacobian=N.dict([(num(9), sym("stale"))]), P=N.fake("busP", is_set=True))
        N.set(nw, "busses", N.dict([("bus", bus)]))
        u = N.fake("ude", conns=N.list(), jacobian=N.dict([(num(9), sym("stale"))]))
        N.set(nw, "user_defined_eq", N.dict([("u", u)]))
        _, exc = N.run(nw, "solve_determination")
        got = "TESPyNetworkError" in [n for pc, n in exc if pc is True]
        ctx.check(got == rej, "determination test: 7 equations, %d variables" % nv, where(f), "the calculation is %s" %
                  ("rejected" if got else "accepted"))
        ctx.check(_eq(N.get(nw, "num_vars"), nv), "determination test: number of variables %d" % nv, where(f), "is %s" % (N.get(nw, "num_vars"),))
        if rej:
            continue
        for o, what in ((bus, "bus"), (u, "user defined equation")):
            jac = N.get(o, "jacobian")
            left = N.array(jac) if isinstance(jac, Ref) else None
            ctx.check(left == {} if left is not None else None, "columns of a previous calculation are dropped: %s" % what, where(f),
                      "entries %s survive" % left)
