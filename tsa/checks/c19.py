"""The optimization problem hands every decision variable, bound, objective
and constraint to its place."""
from ..common import program, where, same
from ..dd import AND
from ..interp import num, sym, FuncV, MISSING, Ref, OBJS, _unhk
from ..net import NetModel
from ..poly import R
from .c08 import keys
from .c11 import call
from .c14 import spec_
from .c18 import table, eq, short

EXPL = ("OptimizationProblem is interpreted for several sets of decision variables (of connections, components and other kinds) and of upper "
        "and lower limits (numbers and references to other parameters) with symbolic bounds, limits, decision vectors and model results; "
        "names, bounds, the values handed to the model, the fitness vector and the recorded individuals of all generations are compared "
        "position by position.")
STUBS = ("pandas", "nparr", "optmodel")
MOD = "tespy.tools.optimization"

# {kind: {label: [parameters] or None}}
VARS = {
    "connections": {"Connections": {"2": ["p"], "4": ["p", "T"]}},
    "components": {"Components": {"tu": ["pr"], "pu": ["eta_s", "pr"]}},
    "all kinds": {"Components": {"tu": ["pr"]}, "other": {"load": None, "ambient": None}, "Connections": {"2": ["p", "m"]}},
    "other kinds first": {"settings": {"x": None}, "Connections": {"1": ["T"]}},
}
# {border: {kind: {label: {parameter: number name or reference}}}}
LIMITS = {
    "none": {},
    "upper": {"upper limits": {"Connections": {"2": {"p": "lim1", "T": "lim2"}}}},
    "lower": {"lower limits": {"Components": {"tu": {"P": "lim1"}}, "Connections": {"4": {"x": "lim2"}}}},
    "references": {"lower limits": {"Connections": {"2": {"p": ("ref1", ["Connections", "4", "p"])}}},
                   "upper limits": {"Components": {"pu": {"P": ("ref2", ["Components", "tu", "P"])}}, "Connections": {"1": {"T": "lim1"}}, "other": {"net": {"cost": "lim3"}}}},
}


def const(name):
    """a number (not text)"""
    return sym(name) * num(2) + num(1)


def flat(v):
    out = []
    order = list(v) + [k for k in ("Connections", "Components") if k not in v]
    for k in order:
        for l, ps in v.get(k, {}).items():
            out += [(k, l, p) for p in ps] if ps else [(k, l)]
    return out


def setup(P, vs, lim):
    N = NetModel(P)
    N.solved = []
    d = lambda x: N.dict(list(x.items()))
    bound = lambda t: d({"min": const("min[%s]" % "-".join(t)), "max": const("max[%s]" % "-".join(t))})
    var = d({k: d({l: d({p: bound((k, l, p)) for p in ps}) if ps else bound((k, l)) for l, ps in data.items()}) for k, data in vs.items()})
    con = {}
    for b, data in lim.items():
        out = {}
        for k, x in data.items():
            out[k] = d({l: d({p: (v[0] if isinstance(v, tuple) else const(v)) for p, v in ps.items()}) for l, ps in x.items()})
            for ps in x.values():
                for v in ps.values():
                    if isinstance(v, tuple):
                        con[v[0]] = N.list(*v[1])
        con[b] = d(out)
    N.I.intrinsics["optmodel._param"] = lambda I, a, k, st, fr, fv: sym("value[%s]" % "-".join(map(str, a)))
    N.I.intrinsics["optmodel._objective"] = lambda I, a, k, st, fr, fv: sym("objective[%s]" % a[0])

    def solved(I, a, k, st, fr, fv):
        N.solved.append(tree(N, a[0], st))
    N.I.intrinsics["optmodel._solved"] = solved
    N.model = N.I.instantiate(P.modules["optmodel"].defs["Model"][1], [], {}, N.st, N.fr)
    N.var, N.con = var, d(con)
    n0 = len(N.fr.raises)
    N.before = tree(N, var, N.st), tree(N, N.con, N.st)
    N.o = N.I.instantiate(P.classes["OptimizationProblem"], [N.model, var, N.con, "goal"], {}, N.st, N.fr)
    N.exc = [n for pc, n, _ in N.fr.raises[n0:] if pc is not False]
    return N


def tree(N, v, st):
    if isinstance(v, Ref) and OBJS[v.oid].kind == "dict":
        return {_unhk(k): tree(N, N.I.dict_get(st, v, _unhk(k)), st) for k in N.I.dict_keys(st, v)}
    if isinstance(v, Ref) and OBJS[v.oid].kind == "list":
        return [tree(N, x, st) for x in st.heap[(v.oid, "#")]]
    return v


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        return False
    return eq(a, b)


def at(P, name):
    c = P.classes["OptimizationProblem"]
    f = c.find(name)
    return where(FuncV(f[1], f[0].module, f[0], None)) if f else c.module.rel


def limits_of(lim):
    """[(border, target, right hand side)] in the order of the fitness"""
    out = []
    for b in ("upper", "lower"):
        data = lim.get(b + " limits", {})
        order = list(data) + [k for k in ("Connections", "Components") if k not in data]
        for k in order:
            for l, ps in data.get(k, {}).items():
                for p, v in ps.items():
                    out.append((b, (k, l, p), v))
    return out


def one(ctx, P, key, vs, lim):
    N = setup(P, vs, lim)
    w = at(P, "__init__")
    ctx.check(not N.exc, key + ": is accepted", w, "raises %s" % N.exc)
    if N.exc:
        return
    fl = flat(vs)
    get = lambda a: tree(N, N.get(N.o, a), N.st)
    names = get("variable_list")
    ctx.check(names == ["-".join(t) for t in fl], key + ": names of the variables", w, "are %s" % names)
    b, exc = call(N, N.meth(N.o, "get_bounds"))
    got = tree(N, b, N.st)
    want = [[const("%s[%s]" % (m, "-".join(t))) for t in fl] for m in ("min", "max")]
    ctx.check(alike(list(got), want), key + ": bounds", w, "are %s" % short(got))
    ls = limits_of(lim)
    n, _ = call(N, N.meth(N.o, "get_nic"))
    ctx.check(eq(n, num(len(ls))), key + ": number of constraints", at(P, "collect_constraints"), "is %s, expected %d" % (n, len(ls)))
    n, _ = call(N, N.meth(N.o, "get_nobj"))
    ctx.check(eq(n, num(1)), key + ": number of objectives", w, "is %s" % n)
    cn = get("constraint_list")
    ctx.check(isinstance(cn, list) and len(cn) == len(ls), key + ": names of the constraints", at(P, "collect_constraints"), "are %s" % (cn,))
    for i, (bd, t, v) in enumerate(ls):
        if i < len(cn) and isinstance(cn[i], str):
            op = "<=" if bd == "upper" else ">="
            rhs = "-".join(v[1]) if isinstance(v, tuple) else None
            ok = cn[i].startswith("-".join(t) + op) and (rhs is None or cn[i].endswith(op + rhs))
            ctx.check(ok, key + ": name of constraint %d" % i, at(P, "collect_constraints"), "is %s" % cn[i])
    # several evaluations in sequence
    w = at(P, "fitness")
    for trial in ("x", "y"):
        k = key + (", second evaluation" if trial == "y" else "")
        xs = [sym("%s%d" % (trial, i)) for i in range(len(fl))]
        del N.solved[:]
        v, exc = call(N, N.meth(N.o, "fitness"), N.list(*xs))
        ctx.check(not exc, k + ": is evaluated", w, "raises %s" % exc)
        if exc:
            return
        exp = {"Connections": {}, "Components": {}}
        for t, x in zip(fl, xs):
            d = exp.setdefault(t[0], {})
            if len(t) == 3:
                d.setdefault(t[1], {})[t[2]] = x
            else:
                d[t[1]] = x
        ctx.check(len(N.solved) == 1 and alike(N.solved[0], exp), k + ": values handed to the model", w, "are %s, expected %s" % (short(N.solved), short(exp)))
        f = tree(N, v, N.st)
        want = [sym("objective[goal]")]
        for bd, t, r in ls:
            val = sym("value[%s]" % "-".join(t))
            rhs = sym("value[%s]" % "-".join(r[1])) if isinstance(r, tuple) else const(r)
            want.append(val - rhs if bd == "upper" else rhs - val)
        ctx.check(alike(f, want), k + ": objective and constraints", w, "are %s, expected %s" % (short(f), short(want)))
    ctx.check(alike((tree(N, N.var, N.st), tree(N, N.con, N.st)), N.before), key + ": the passed dictionaries stay as they are", w, "changed")
    if ctx.tier != "quick" or key.endswith(("kinds, limits: none", "kinds, limits: references", "connections, limits: upper")):
        generations(ctx, P, N, key, fl, ls)


def generations(ctx, P, N, key, fl, ls):
    nv, nf = len(fl), 1 + len(ls)
    w = at(P, "_process_generation_data")
    for ngen, nind in ((1, 2), (3, 2)):
        k = "%s: %d generations" % (key, ngen)
        with ctx.guard(k):
            mk = lambda t, g: N.I.instantiate(P.modules["optmodel"].defs["Population"][1], [
                N.list(*[N.list(*[sym("%sx[%d,%d,%d]" % (t, g, i, j)) for j in range(nv)]) for i in range(nind)]),
                N.list(*[N.list(*[sym("%sf[%d,%d,%d]" % (t, g, i, j)) for j in range(nf)]) for i in range(nind)]),
                N.list(*[sym("bx%d" % j) for j in range(nv)]), N.list(sym("bf0"))], {}, N.st, N.fr)
            pops = [mk("", g) for g in range(ngen)]
            algo = N.I.instantiate(P.modules["optmodel"].defs["Algorithm"][1], [N.list(*pops[1:])], {}, N.st, N.fr)
            res, exc = call(N, N.meth(N.o, "run"), algo, pops[0], num(nind), num(ngen))
            ctx.check(not exc, k + " run", at(P, "run"), "raises %s" % exc)
            if exc:
                continue
            ctx.check(res == pops[-1], k + ": the last population is returned", at(P, "run"), "is %s" % (res,))
            seen = tree(N, N.get(algo, "seen"), N.st)
            ctx.check(list(seen) == pops[:-1], k + ": every generation evolves from the one before", at(P, "run"), "evolved %s" % len(seen))
            tab = table(N, N.get(N.o, "individuals"))
            names, cons = tree(N, N.get(N.o, "variable_list"), N.st), tree(N, N.get(N.o, "constraint_list"), N.st)
            rows = {tuple(int(x.const_val()) for x in r): v for r, v in tab.items()}
            ctx.check(set(rows) == {(g, i) for g in range(ngen) for i in range(nind)}, k + ": recorded individuals", w, "are %s" % sorted(rows))
            for (g, i), r in rows.items():
                ok = all(eq(r.get(n), sym("x[%d,%d,%d]" % (g, i, j))) for j, n in enumerate(names))
                ctx.check(ok, "%s: decision variables of individual %d of generation %d" % (k, i, g), w, "are %s" % short(r))
                ok = all(eq(r.get(n), sym("f[%d,%d,%d]" % (g, i, j))) for j, n in enumerate(["goal"] + cons))
                ctx.check(ok, "%s: results of individual %d of generation %d" % (k, i, g), w, "are %s" % short(r))
                v = True
                for j in range(1, nf):
                    v = AND(v, spec_(N, "x < 0", x=sym("f[%d,%d,%d]" % (g, i, j))))
                ctx.check(same(r.get("valid"), v), "%s: validity of individual %d of generation %d" % (k, i, g), w, "is %s, expected %s" % (short(r.get("valid")), short(v)))


def run(ctx):
    ctx.rule = "the place of a variable, bound or constraint is the same in names, bounds, model input, fitness and recorded individuals"
    P = program(STUBS)
    ctx.units.add(P.modules[MOD].rel)
    n = 0
    for vn, vs in VARS.items():
        for ln, lim in LIMITS.items():
            key = "variables: %s, limits: %s" % (vn, ln)
            n += 1
            with ctx.guard(key):
                one(ctx, P, key, vs, lim)
    ctx.count("problems", n)
    ctx.floor("problems", n, 12)
    merge(ctx, P)
    return EXPL


def merge(ctx, P):
    """merge_dicts returns a new structure with the entries of both"""
    m = P.modules["tespy.tools.helpers"]
    if "merge_dicts" not in m.defs:
        return
    f = FuncV(m.defs["merge_dicts"][1], m, None, None)
    w = where(f)
    with ctx.guard("merging of dictionaries"):
        N = NetModel(P)
        d = lambda **k: N.dict(list(k.items()))
        a = d(x=d(p=num(1)), y=num(2))
        b = d(x=d(q=num(3)), z=d())
        v, exc = call(N, f, a, b)
        got = tree(N, v, N.st)
        ctx.check(not exc and alike(got, {"x": {"p": num(1), "q": num(3)}, "y": num(2), "z": {}}), "merged dictionaries", w, "are %s" % short(got))
        ctx.check(alike(tree(N, a, N.st), {"x": {"p": num(1)}, "y": num(2)}), "merging leaves the first dictionary", w, "changed")
        inner = N.I.dict_get(N.st, v, "x")
        ctx.check(inner != N.I.dict_get(N.st, a, "x") and inner != N.I.dict_get(N.st, b, "x"), "merged dictionaries share nothing with the passed ones", w, "inner dictionary is shared")
