"""The iteration: Newton step, safeguards, verdict."""
from fractions import Fraction

from .. import dd
from ..common import program, concrete, where, spec, same
from ..configs import configs
from ..dd import literals, NOT, AND, OR
from ..interp import OBJS, Ref, num, sym, MISSING, UNDEF, new_obj, Frame, BoundV
from ..model import Model
from ..net import NetModel
from ..poly import R
from .c01 import short

EXPL = ("solve, solve_loop, matrix_inversion, update_variables, solve_determination and the safeguards are interpreted with symbolic "
        "residual norms, singularity flags and increments: the verdict of every iteration history is a decision diagram that is "
        "compared with the documented criterion; every write of the safeguards of connections and components to a state value is "
        "checked to be impossible for values that are not variables.")
STUBS = ("pandas", "nparr")
NET = "tespy.networks.network.Network."
TOL = R.const(__import__("fractions").Fraction(1, 1000))


def loop_model(P, max_iter, min_iter, norms, lindep):
    """norms: value of the residual norm per iteration; lindep: flag per
    iteration"""
    N = NetModel(P)
    nw, I = N.nw, N.I
    for k, v in (("max_iter", num(max_iter)), ("min_iter", num(min_iter)), ("num_vars", num(2)), ("iterinfo", False),
                 ("converged", False), ("lin_dep", False), ("iter", num(0)), ("progress", False), ("residual_history", sym("old"))):
        N.set(nw, k, v)
    count = {"n": 0}

    def control(I, a, k, st, fr, fv):
        it = I.getattr_(nw, "iter", st, fr)
        count["n"] += 1
        n = int(it.const_val())
        st.heap[(nw.oid, "a", "residual")] = sym("res%d" % n)
        st.heap[(nw.oid, "a", "increment")] = sym("inc%d" % n)
        st.heap[(nw.oid, "a", "lin_dep")] = lindep(n)
        return None

    def norm(I, a, k, st, fr):
        x = a[0]
        for n in range(max_iter):
            if isinstance(x, R) and x == sym("res%d" % n):
                return norms(n)
        return I.unk("norm of something else than the residual")
    I.intrinsics[NET + "solve_control"] = control
    for nm in ("numpy.linalg.norm", "numpy.linalg.linalg.norm"):
        I.intrinsics["ext:" + nm] = norm
    return N


def verdicts(ctx, P):
    f = None
    # every history of up to five iterations
    for max_iter, min_iter in ((5, 1), (5, 2), (5, 4), (3, 4), (1, 1)):
        key = "max_iter %d, min_iter %d" % (max_iter, min_iter)
        with ctx.guard("verdict, " + key):
            r = [sym("r%d" % n) for n in range(max_iter)]
            N = loop_model(P, max_iter, min_iter, lambda n: r[n], lambda n: B(N, n))
            f = N.meth(N.nw, "solve_loop")
            _, exc = N.run(N.nw, "solve_loop", print_results=False)
            got = N.get(N.nw, "converged")
            # specification
            small = [spec_lt(N, x) for x in r]
            run_, conv = True, False
            for n in range(max_iter):
                sing = B(N, n)
                good = small[n] if n == 0 else AND(small[n], small[n - 1])
                ok = AND(NOT(sing), good) if n >= min_iter - 1 else False
                conv = OR(conv, AND(run_, ok))
                run_ = AND(run_, AND(NOT(sing), NOT(ok)))
            # soundness and completeness
            ctx.check(dd_eq(got, conv), "the verdict is 'converged' exactly if the residual norm of the last two iterations is below the tolerance and the last system was regular: " + key,
                      where(f), "converged is %s, expected %s" % (short(got), short(conv)))
            ctx.check(not exc, "the iteration ends without an exception: " + key, where(f), "raises %s" % exc)
            ctx.count("iteration histories")
    # not a number
    nan = sym("nan")
    for name, norms in (("every residual undefined", lambda n: nan), ("last residual undefined", lambda n: nan if n >= 3 else num(0) if n < 2 else nan),
                        ("residual undefined from the second iteration on", lambda n: nan if n else sym("r0"))):
        for min_iter in (4, 1):
            with ctx.guard("verdict, %s" % name):
                N = loop_model(P, 5, 4 if min_iter == 4 else 2, norms, lambda n: False)
                if min_iter == 1 and name.startswith("last"):
                    continue
                _, exc = N.run(N.nw, "solve_loop", print_results=False)
                got = N.get(N.nw, "converged")
                ctx.check(got is False, "an undefined residual is never converged: %s, min_iter %d" % (name, min_iter), where(f), "converged is %s" % short(got))
    # stagnation
    first = 36
    with ctx.guard("stagnation"):
        r = {n: sym("r%d" % n) for n in range(first, 46)}
        N = loop_model(P, 46, 4, lambda n: r.get(n, num(10)), lambda n: False)
        for n in r:
            N.I.axioms.update(literals(NOT(spec_lt(N, r[n]))))
        N.run(N.nw, "solve_loop", print_results=False)
        got, prog, it = (N.get(N.nw, k) for k in ("converged", "progress", "iter"))
        ctx.check(dd_implies(N, NOT(prog) if not isinstance(prog, bool) else (not prog), NOT(got) if not isinstance(got, bool) else (not got)),
                  "a calculation without progress is not converged", where(f), "converged %s" % short(got))
        # decreasing residuals: never stopped
        asg = {}
        for n in range(first + 1, 46):
            asg.update(literals(N.I.lt(r[n] - r[n - 1] * R.const(__import__("fractions").Fraction(95, 100)))))
        p = dd.restrict(prog, asg)
        ctx.check(p is True, "an iteration that reduces the residual by more than 5 percent every time is not stopped", where(f), "progress is %s" % short(p))
        i = dd.restrict(it, asg)
        ctx.check(same(i, num(45)), "an iteration making progress uses all iterations", where(f), "stopped at %s" % short(i))
        # constant residual: stopped
        N = loop_model(P, 60, 4, lambda n: num(10), lambda n: False)
        N.run(N.nw, "solve_loop", print_results=False)
        p, it, cv = (N.get(N.nw, k) for k in ("progress", "iter", "converged"))
        ctx.check(p is False and cv is False, "an iteration whose residual stays constant is stopped without convergence", where(f), "progress %s converged %s" % (short(p), short(cv)))
    with ctx.guard("no stagnation verdict early"):
        r = {n: sym("r%d" % n) for n in range(0, 8)}
        N = loop_model(P, 8, 4, lambda n: r[n], lambda n: False)
        N.run(N.nw, "solve_loop", print_results=False)
        ctx.check(N.get(N.nw, "progress") is True, "no stagnation verdict in the first iterations", where(f), "progress %s" % short(N.get(N.nw, "progress")))


def B(N, n):
    return N.I.B("singular", num(n))


def spec_lt(N, x):
    return N.I.lt(x - TOL)


def dd_eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, dd.DD) or isinstance(b, dd.DD):
        v = dd.apply(lambda x, y: (x == y) if isinstance(x, bool) and isinstance(y, bool) else "?", a, b)
        ls = set(dd.terminals(v))
        return None if "?" in ls else False not in ls
    return None


def dd_implies(N, a, b):
    v = dd.apply(lambda x, y: (not x or y) if isinstance(x, bool) and isinstance(y, bool) else "?", a, b)
    ls = set(dd.terminals(v))
    return None if "?" in ls else False not in ls


def newton(ctx, P):
    """increment solves the linear system; singular matrices are recognised"""
    def model():
        N = NetModel(P)
        cls = P.modules["nparr"].defs["scalar_matrix"][1]
        J = N.I.instantiate(cls, [sym("J")], {}, N.st, N.fr)
        r = N.I.instantiate(cls, [sym("res")], {}, N.st, N.fr)
        for k, v in (("jacobian", J), ("residual", r), ("increment", sym("old")), ("use_cuda", False), ("lin_dep", sym("oldflag"))):
            N.set(N.nw, k, v)
        return N, cls
    for singular in (False, True):
        with ctx.guard("Newton step, singular %s" % singular):
            N, cls = model()

            def val(I, x, st, fr):
                return I.getattr_(x, "_s", st, fr)

            def inv(I, a, k, st, fr):
                if singular:
                    fr.raises.append((st.pc, "LinAlgError", st.copy()))
                    st.pc = False
                    return I.unk("raise")
                return I.instantiate(cls, [num(1) / val(I, a[0], st, fr)], {}, st, fr)

            def solve(I, a, k, st, fr):
                if singular:
                    fr.raises.append((st.pc, "LinAlgError", st.copy()))
                    st.pc = False
                    return I.unk("raise")
                return I.instantiate(cls, [val(I, a[1], st, fr) / val(I, a[0], st, fr)], {}, st, fr)
            N.I.intrinsics["ext:numpy.linalg.inv"] = inv
            N.I.intrinsics["ext:numpy.linalg.solve"] = solve
            f = N.meth(N.nw, "matrix_inversion")
            _, exc = N.run(N.nw, "matrix_inversion")
            ctx.check(not exc, "the linear step does not raise, singular %s" % singular, where(f), "raises %s" % exc)
            got = N.get(N.nw, "lin_dep")
            ctx.check(got is singular, "linear dependency flag, singular %s" % singular, where(f), "lin_dep is %s" % short(got))
            inc = N.get(N.nw, "increment")
            v = N.get(inc, "_s") if isinstance(inc, Ref) else inc
            want = num(0) if singular else -sym("res") / sym("J")
            ctx.check(same(v, want), "increment, singular %s" % singular, where(f), "is %s" % short(v))
    # order within an iteration
    for singular in (False, True):
        N = NetModel(P)
        order = []
        for nm in ("solve_components", "solve_busses", "solve_connections", "solve_user_defined_eq", "matrix_inversion", "update_variables", "check_variable_bounds"):
            def h(I, a, k, st, fr, fv, nm=nm):
                order.append((nm, st.pc))
                if nm == "matrix_inversion":
                    st.heap[(N.nw.oid, "a", "lin_dep")] = singular
                return None
            N.I.intrinsics[NET + nm] = h
        f = N.meth(N.nw, "solve_control")
        with ctx.guard("order of an iteration"):
            N.run(N.nw, "solve_control")
            did = [a for a, pc in order if pc is not False]
            eqs = {"solve_components", "solve_busses", "solve_connections", "solve_user_defined_eq"}
            i = did.index("matrix_inversion")
            ctx.check(set(did[:i]) == eqs and len(did[:i]) == 4, "all equations are evaluated once before the linear step, singular %s" % singular, where(f), "calls %s" % did)
            want = [] if singular else ["update_variables", "check_variable_bounds"]
            ctx.check(did[i + 1:] == want, "the variables are updated after, and only after, a regular step, singular %s" % singular, where(f), "calls %s" % did)


def updates(ctx, P):
    N = NetModel(P)
    I = N.I
    mk = lambda cls, **kw: N.fake(cls, **kw)
    con = {}
    objs = {}
    vd = []
    inc = {}
    col = 0
    for c in ("c0", "c1"):
        o = N.fake(c)
        for prop in ("m", "p", "h"):
            x = N.fake("%s.%s" % (c, prop), val_SI=sym("%s.%s" % (c, prop)), J_col=num(5 - col))
            N.set(o, prop, x)
            con[(c, prop)] = x
            inc[(c, prop)] = sym("inc[%d]" % (5 - col))
            vd.append((num(5 - col), N.dict([("obj", o), ("variable", prop)])))
            col += 1
        objs[c] = o
        o_ = OBJS[o.oid]
        o_.cls = P.classes["Connection"]
    fl = N.fake("fl", val=N.dict([("A", sym("xA")), ("B", sym("xB"))]), J_col=N.dict([("A", num(6)), ("B", num(7))]), is_var=I.new_set(N.st, ["A", "B"]) if hasattr(I, "new_set") else N.list("A", "B"))
    N.set(objs["c0"], "fluid", fl)
    for f_, k in (("A", 6), ("B", 7)):
        vd.append((num(k), N.dict([("obj", objs["c0"]), ("variable", "fluid"), ("fluid", f_)])))
    cv = N.fake("cv", val=sym("cv"), J_col=num(8), min_val=sym("lo"), max_val=sym("hi"))
    vd.append((num(8), N.dict([("obj", cv), ("variable", "D")])))
    N.set(N.nw, "variables_dict", N.dict(vd))
    N.set(N.nw, "increment", N.list(*[sym("inc[%d]" % k) for k in range(9)]))
    f = N.meth(N.nw, "update_variables")
    with ctx.guard("update of the variables"):
        _, exc = N.run(N.nw, "update_variables")
        ctx.check(not exc, "update of the variables does not raise", where(f), "raises %s" % exc)
        for (c, prop), x in con.items():
            got = N.get(x, "val_SI")
            old, d = sym("%s.%s" % (c, prop)), inc[(c, prop)]
            if prop in "mh":
                ctx.check(same(got, old + d), "%s of %s moves by its increment" % (prop, c), where(f), "is %s" % short(got))
            else:
                # p > 0: full step unless it more than halves the pressure
                relax = num(-2) * d / old
                small = I.lt(relax - num(1))
                # the code may compare the other way round
                a = assume_relax(N, relax)
                v1 = dd.restrict(got, a[True])
                v2 = dd.restrict(got, a[False])
                ctx.check(same(v1, old + d), "%s of %s moves by its increment when at least half of it is kept" % (prop, c), where(f), "is %s" % short(v1))
                ctx.check(same(v2, old / num(2)), "%s of %s is at most halved in one iteration" % (prop, c), where(f), "is %s" % short(v2))
        for nm, k in (("A", 6), ("B", 7)):
            got = I.dict_get(N.st, N.get(fl, "val"), nm)
            new = sym("x" + nm) + sym("inc[%d]" % k)
            bounds(ctx, N, got, new, num(0), num(1), "mass fraction " + nm, f)
        bounds(ctx, N, N.get(cv, "val"), sym("cv") + sym("inc[8]"), sym("lo"), sym("hi"), "component variable", f)


def assume_relax(N, e):
    """e < 1 and e > 1 for every way the comparison may be written"""
    one = num(1)
    out = {True: {}, False: {}}
    for x in (e - one, one - e):
        lt = N.I.lt(x)
        for val in (True, False):
            w = val if x == e - one else not val
            out[val].update(literals(lt if w else NOT(lt)))
    # max(1, e) kept as a function: see dd of the value
    return out


def bounds(ctx, N, got, new, lo, hi, what, f):
    """new inside [lo, hi], the limit outside (tolerance 1e-3 at the ends)"""
    for region, want in (("below its limits", lo), ("within its limits", new), ("above its limits", hi)):
        asg = {}
        for b in dd.support(got):
            a = dd.BA(b)
            if a.kind != "lt":
                continue
            for sgn in (1, -1):
                for lim, which in ((lo, 0), (hi, 1)):
                    d = a.args[0] * num(sgn) - (new - lim)
                    if d.is_const() and abs(d.const_val()) < 1e-3:
                        below = region.startswith("below") or (which == 1 and region.startswith("within"))
                        asg[b] = below if sgn == 1 else not below
        v = dd.restrict(got, asg)
        ctx.check(same(v, want), "%s %s" % (what, region), where(f), "becomes %s" % short(v))


def determination(ctx, P):
    """the number of equations must equal the number of variables"""
    for dn, name in ((0, "balanced"), (1, "overdetermined"), (-1, "underdetermined")):
        N = NetModel(P)
        nv = sym("nv1") + sym("nv2")
        for k, v in (("num_conn_vars", sym("nv1")), ("num_comp_vars", sym("nv2")), ("num_conn_eq", sym("e1")), ("num_bus_eq", sym("e2")),
                     ("num_comp_eq", nv - sym("e1") - sym("e2") + num(dn) - num(1)), ("user_defined_eq", None)):
            N.set(N.nw, k, v)
        c = N.fake("c", label="c")
        ude = N.fake("ude", conns=N.list())
        N.set(N.nw, "user_defined_eq", N.dict([("u", ude)]))
        f = N.meth(N.nw, "solve_determination")
        with ctx.guard("determination, " + name):
            _, exc = N.run(N.nw, "solve_determination")
            if dn == 0:
                ctx.check(not [e for e in exc if e[0] is not False], "a problem with as many equations as variables is accepted", where(f), "raises %s" % exc)
            else:
                ctx.check((True, "TESPyNetworkError") in exc, "an %s problem is rejected" % name, where(f), "raises %s" % exc)


def driver(ctx, P):
    """solve: verdicts, postprocessing, reset"""
    # a network that changed since its topology was analysed
    N = NetModel(P)
    order = []
    for k, v in (("design_path", None), ("checked", False), ("converged", True), ("conns", N.dict([("object", N.list())])), ("comps", N.dict([("object", N.list())])),
                 ("busses", N.dict([])), ("lin_dep", False), ("residual", sym("res")), ("progress", True), ("iterinfo", False)):
        N.set(N.nw, k, v)
    for nm in ("initialise", "solve_determination", "solve_loop", "postprocessing", "reset_topology_reduction_specifications", "check_network"):
        N.I.intrinsics[NET + nm] = lambda I, a, k, st, fr, fv, nm=nm: order.append((nm, st.pc)) or None
    with ctx.guard("solve, topology not analysed"):
        f = N.meth(N.nw, "solve")
        N.run(N.nw, "solve", "design")
        ctx.check(bool(order) and ("check_network", True) in order and [x[0] for x in order].index("check_network") < [x[0] for x in order].index("initialise"),
                  "a network whose topology was not analysed yet is analysed before it is solved", where(f), "calls %s" % [x[0] for x in order])
    for fast in (False, True):
        for init_only in (False, True):
            N = NetModel(P)
            log = []
            I = N.I
            for k, v in (("design_path", None), ("checked", True), ("converged", True), ("conns", N.dict([("object", N.list())])), ("comps", N.dict([("object", N.list())])),
                         ("busses", N.dict([])), ("lin_dep", sym("oldlin")), ("residual", sym("res")), ("progress", True), ("iterinfo", False)):
                N.set(N.nw, k, v)
            for nm in ("initialise", "solve_determination", "solve_loop", "postprocessing", "reset_topology_reduction_specifications", "check_network"):
                def h(I, a, k, st, fr, fv, nm=nm):
                    log.append((nm, st.pc, I.getattr_(N.nw, "converged", st, fr), I.getattr_(N.nw, "mode", st, fr)))
                    if nm == "solve_loop":
                        for key in ("lin_dep", "progress", "converged"):
                            st.heap[(N.nw.oid, "a", key)] = I.B("flag", key)
                    return None
                I.intrinsics[NET + nm] = h
            f = N.meth(N.nw, "solve")
            tag = "init_only %s, fast lane %s" % (init_only, fast)
            with ctx.guard("solve, " + tag):
                _, exc = N.run(N.nw, "solve", "design", init_only=init_only, prepare_fast_lane=fast)
                ctx.check(not exc, "solve runs, " + tag, where(f), "raises %s" % exc)
                pcs = {}
                for nm, pc, cv, mode in log:
                    pcs[nm] = OR(pcs.get(nm, False), pc)
                first = [x for x in log if x[0] in ("initialise", "solve_loop")]
                ctx.check(bool(first) and all(x[2] is False for x in first), "the verdict of a previous calculation is withdrawn before a new one starts, " + tag, where(f), "converged is %s" % [short(x[2]) for x in first])
                ctx.check(pcs.get("check_network", False) is False, "a checked network is not checked again, " + tag, where(f), "%s" % [x[0] for x in log])
                ctx.check(pcs.get("initialise", False) is True, "every calculation is initialised, " + tag, where(f), "%s" % log)
                if init_only:
                    ctx.check(pcs.get("solve_loop", False) is False, "init_only does not iterate, " + tag, where(f), "iterates")
                    ctx.check(N.get(N.nw, "converged") is False, "init_only is not converged", where(f), "converged %s" % short(N.get(N.nw, "converged")))
                    ctx.check(pcs.get("reset_topology_reduction_specifications", False) is True, "specifications are restored, " + tag, where(f), "not called")
                    continue
                names_ = [x[0] for x in log]
                ctx.check("solve_determination" in names_ and names_.index("initialise") < names_.index("solve_determination") < names_.index("solve_loop"),
                          "the number of equations is verified before iterating, " + tag, where(f), "order %s" % names_)
                lin, prog = I.B("flag", "lin_dep"), I.B("flag", "progress")
                ctx.check(dd_eq(pcs.get("postprocessing", False), AND(NOT(lin), prog)), "results are calculated exactly for regular calculations with progress, " + tag, where(f), "under %s" % short(pcs.get("postprocessing")))
                ctx.check(dd_eq(N.get(N.nw, "converged"), I.B("flag", "converged")), "the verdict of the iteration is kept, " + tag, where(f), "converged %s" % short(N.get(N.nw, "converged")))
                want = not fast
                ctx.check(pcs.get("reset_topology_reduction_specifications", False) is want, "specifications are restored after the calculation unless the fast lane is prepared, " + tag, where(f),
                          "called under %s" % short(pcs.get("reset_topology_reduction_specifications", False)))
    for mode, good in (("design", True), ("offdesign", True), ("design ", False), ("other", False)):
        N = NetModel(P)
        for k, v in (("design_path", None), ("checked", True), ("conns", N.dict([("object", N.list())])), ("comps", N.dict([("object", N.list())])), ("busses", N.dict([]))):
            N.set(N.nw, k, v)
        for nm in ("initialise", "solve_determination", "solve_loop", "postprocessing", "reset_topology_reduction_specifications", "check_network"):
            N.I.intrinsics[NET + nm] = lambda I, a, k, st, fr, fv: None
        with ctx.guard("mode " + mode):
            _, exc = N.run(N.nw, "solve", mode, init_only=True)
            ctx.check(((True, "ValueError") in exc) is (not good), "mode %r %s" % (mode, "accepted" if good else "rejected"), where(N.meth(N.nw, "solve")), "raises %s" % exc)


PROPS = ("m", "p", "h")


def fixed_values(ctx, m, before, after, key, f, extra=()):
    """state values of the connections that are not variables are unchanged"""
    n = 0
    for c in m.inl + m.outl + list(extra):
        lab = OBJS[c.oid].path
        for pr in PROPS:
            d = m.attr(c, pr)
            old = before.heap.get((d.oid, "a", "val_SI"))
            new = after.heap.get((d.oid, "a", "val_SI"))
            if old is new:
                n += 1
                continue
            var = m.attr(d, "is_var")
            v = dd.restrict(new, literals(NOT(var)))
            ctx.check(same(v, old), "%s keeps the value of %s.%s unless it is a variable" % (key, lab, pr), where(f), "becomes %s" % short(v))
            n += 1
        # fluid composition
        fl = m.attr(c, "fluid")
        val = m.attr(fl, "val")
        isv = m.attr(fl, "is_var")
        for cond, k, old in m.I.dict_items(before, val):
            new = m.I.dict_get(after, val, k)
            if old is new or same(old, new):
                n += 1
                continue
            var = m.I.contains(isv, k, before, m.fr) if hasattr(m.I, "contains") else None
            lits = literals(NOT(var)) if var is not None and not isinstance(var, bool) else None
            if var is True:
                continue
            v = dd.restrict(new, lits) if lits else new
            ctx.check(same(v, old), "%s keeps the mass fraction %s of %s unless it is a variable" % (key, k, lab), where(f), "becomes %s" % short(v))
            n += 1
    return n


def safeguards(ctx, P):
    n = 0
    for c in concrete(P):
        for tag, kw in list(configs(c))[:2]:
            key = "convergence check of %s%s" % (c.name, " [%s]" % tag if tag else "")
            with ctx.guard(key):
                m = Model(P, c, **kw)
                for cn in m.inl + m.outl:
                    m.setv(cn, "good_starting_values", m.flag(OBJS[cn.oid].path + ".good_starting_values"))
                f = m.meth(m.self, "convergence_check")
                _, st, exc = m.run(f, [], {})
                n += fixed_values(ctx, m, m.st, st, key, f)
                ctx.units.add(c.module.rel)
    ctx.count("state values of components", n)
    ctx.floor("state values of components", n, 250)
    # network and connection safeguards
    m = Model(P, P.classes["Pump"])
    c = m.inl[0]
    N = NetModel(P, m)
    I = m.I
    for pr in ("p", "h", "m"):
        m.setv(N.nw, pr + "_range_SI", I.new_list(m.st, [sym(pr + "_lo"), sym(pr + "_hi")]))
    m.setv(c, "good_starting_values", m.flag("good_starting_values"))
    FN = "tespy.tools.fluid_properties."
    for fl in (None, "H2O"):
        for it in (0, 3, 10):
            m.setv(N.nw, "iter", num(it))
            key = "safeguards of a connection (%s, iteration %d)" % ("mixture" if fl is None else "pure fluid", it)
            I.intrinsics[FN + "helpers.get_pure_fluid"] = lambda I, a, k, st, fr, fv: I.unk("pf")
            for nm in ("functions.single_fluid", "helpers.single_fluid"):
                I.intrinsics[FN + nm] = lambda I, a, k, st, fr, fv, fl=fl: fl
            with ctx.guard(key):
                f = N.meth(N.nw, "check_connection_properties")
                _, st, exc = m.run(f, [c], {})
                k = fixed_values(ctx, m, m.st, st, key, f)
                ctx.count("state values of connections", k)
                # mass flow limits
                d = m.attr(c, "m")
                v = dd.restrict(st.heap[(d.oid, "a", "val_SI")], literals(m.attr(d, "is_var")))
                N2 = type("X", (), {"I": I})()
                bounds(ctx, N2, v, m.attr(d, "val_SI"), sym("m_lo"), sym("m_hi"), "mass flow of a %s connection in iteration %d" % ("mixture" if fl is None else "pure fluid", it), f)


    # composition
    m = Model(P, P.classes["Pump"])
    c = m.inl[0]
    N = NetModel(P, m)
    I = m.I
    seen = []
    I.intrinsics[NET + "check_connection_properties"] = lambda I, a, k, st, fr, fv: seen.append(a[-1]) or None
    cp = N.fake("cp")
    OBJS[cp.oid].cls = P.classes["Component"]
    I.intrinsics["tespy.components.component.Component.convergence_check"] = lambda I, a, k, st, fr, fv: seen.append("cp") or None
    for cn in m.inl + m.outl:
        m.setv(cn, "build_fluid_data", I.ext("nothing"))
    m.setv(N.nw, "conns", N.dict([("object", N.list(*(m.inl + m.outl)))]))
    m.setv(N.nw, "comps", N.dict([("object", N.list(cp))]))
    for it in (0, 5):
        m.setv(N.nw, "iter", num(it))
        f = N.meth(N.nw, "check_variable_bounds")
        key = "normalisation of the composition (iteration %d)" % it
        with ctx.guard(key):
            del seen[:]
            _, st, exc = m.run(f, [], {})
            fixed_values(ctx, m, m.st, st, key, f)
            ctx.check(set(m.inl + m.outl) <= set(x for x in seen if x != "cp"), "every connection is kept in its range (iteration %d)" % it, where(f), "not all connections are checked")


def ranges(ctx, P):
    """a variable state outside the range of the fluid's property model is
    moved into it, one inside stays"""
    W = "range of the fluid"
    # h = T + off between T_min 200 and T_max 900; bad: property calls fail beyond
    for off, lowbad, highbad in ((0, False, False), (-500, False, False), (0, True, False), (-500, True, False), (0, False, True), (-500, True, True)):
        tmin, tmax = 200, 900
        lo_ok = tmin * 1.04 if lowbad else tmin
        hi_ok = tmax * 0.97 if highbad else tmax
        hmin, hmax = lo_ok + off, hi_ok + off
        for where_, h0 in (("below", hmin - 60), ("far below", hmin - 5000), ("within", (hmin + hmax) / 2), ("near the lower end", hmin + 15), ("near the upper end", hmax - 15), ("above", hmax + 60), ("far above", hmax + 5000)):
            key = "enthalpy %s the fluid's range %s..%s%s" % (where_, hmin, hmax, " with unreachable ends" if lowbad or highbad else "")
            with ctx.guard(key):
                m = Model(P, P.classes["Pump"], fluids=("H2O",))
                c = m.inl[0]
                w = N_fake(m, P, tmin, tmax, lo_ok, hi_ok, off)
                m.setv(m.attr(c, "fluid"), "wrapper", m.I.new_dict(m.st, [("H2O", w)]))
                d = m.attr(c, "h")
                m.setv(d, "val_SI", num(Fraction(str(h0))))
                m.setv(m.attr(c, "p"), "val_SI", num(100000))
                f = m.meth(c, "check_enthalpy_bounds")
                _, st, exc = m.run(f, ["H2O"], {})
                v = dd.restrict(st.heap[(d.oid, "a", "val_SI")], st.assume)
                if not isinstance(v, R) or not v.is_const():
                    ctx.open(key, short(v))
                    continue
                x = float(v.const_val())
                tol = 0.12 * tmin
                if "below" in where_ or "above" in where_:
                    ctx.check(hmin - 1e-9 <= x <= hmax + 1e-9, key + " is moved into it", where(f), "becomes %s" % x)
                    ctx.check(abs(x - (hmin if "below" in where_ else hmax)) < tol, key + " is moved to the limit that is exceeded", where(f), "becomes %s" % x)
                else:
                    ctx.check(abs(x - h0) < 1e-9, key + " stays", where(f), "becomes %s" % x)
    for where_, p0, fails in (("above", 5e7, False), ("within", 1e6, False), ("below", 10, True), ("below", 10, False)):
        key = "pressure %s the fluid's range%s" % (where_, " in a state without properties" if fails else "")
        with ctx.guard(key):
            m = Model(P, P.classes["Pump"], fluids=("H2O",))
            c = m.inl[0]
            w = N_fake(m, P, 200, 900, 200, 900, 0, fails)
            m.setv(m.attr(c, "fluid"), "wrapper", m.I.new_dict(m.st, [("H2O", w)]))
            d = m.attr(c, "p")
            m.setv(d, "val_SI", num(Fraction(int(p0))))
            m.setv(m.attr(c, "h"), "val_SI", num(500))
            f = m.meth(c, "check_pressure_bounds")
            _, st, exc = m.run(f, ["H2O"], {})
            v = dd.restrict(st.heap[(d.oid, "a", "val_SI")], st.assume)
            if not isinstance(v, R) or not v.is_const():
                ctx.open(key, short(v))
                continue
            x = float(v.const_val())
            if where_ == "above":
                ctx.check(0.99e7 <= x <= 1e7, key + " is moved to the limit", where(f), "becomes %s" % x)
            elif fails:
                ctx.check(1000 <= x <= 1100, key + " is moved to the limit", where(f), "becomes %s" % x)
            else:
                ctx.check(x == p0, key + " stays", where(f), "becomes %s" % x)
    # user demanded phases
    for td, state, isset, want in ((5, None, False, "gas"), (-5, None, False, "liquid"), (None, "g", True, "gas"), (None, "l", True, "liquid"), (None, "g", False, None), (None, None, False, None)):
        for h0 in (300, 600, 800):
            key = "enthalpy %d between saturation at 400 and 700, Td_bp %s, state %s%s" % (h0, td, state, "" if isset or not state else " not set")
            with ctx.guard(key):
                m = Model(P, P.classes["Pump"], fluids=("H2O",))
                c = m.inl[0]
                w = N_fake(m, P, 200, 900, 200, 900, 0)
                m.setv(m.attr(c, "fluid"), "wrapper", m.I.new_dict(m.st, [("H2O", w)]))
                d = m.attr(c, "h")
                m.setv(d, "val_SI", num(h0))
                m.setv(m.attr(c, "p"), "val_SI", num(100000))
                m.setv(m.attr(c, "Td_bp"), "val_SI", num(td) if td is not None else sym("nan"))
                m.setv(m.attr(c, "state"), "val", state)
                m.setv(m.attr(c, "state"), "is_set", isset)
                f = m.meth(c, "check_two_phase_bounds")
                _, st, exc = m.run(f, ["H2O"], {})
                v = dd.restrict(st.heap[(d.oid, "a", "val_SI")], st.assume)
                if not isinstance(v, R) or not v.is_const():
                    ctx.open(key, short(v))
                    continue
                x = float(v.const_val())
                ok = x == h0 if want is None or (want == "gas" and h0 > 700) or (want == "liquid" and h0 < 400) else 700 <= x <= 714 if want == "gas" else 392 <= x <= 400
                ctx.check(ok, key + " is put on the demanded side", where(f), "becomes %s" % x)


def N_fake(m, P, tmin, tmax, lo, hi, off, fails=False):
    """property model with h = T + off"""
    I = m.I
    w = new_obj("object", P.classes["CoolPropWrapper"], path="w")
    for k, v in (("_T_min", tmin), ("_T_max", tmax), ("_p_min", 1000), ("_p_max", 10000000), ("_T_crit", 1000), ("_p_crit", 9000000)):
        m.setv(w, k, num(v))

    def hpT(I, a, k, st, fr, fv):
        T = [x for x in list(a) + [k.get("T")] if x is not None][-1]
        if not isinstance(T, R) or not T.is_const():
            return I.unk("temperature")
        if not lo - 1e-9 <= float(T.const_val()) <= hi + 1e-9:
            fr.raises.append((st.pc, "ValueError", st.copy()))
            st.pc = False
            return None
        return T + num(off)

    def Tph(I, a, k, st, fr, fv):
        if fails:
            fr.raises.append((st.pc, "ValueError", st.copy()))
            st.pc = False
            return None
        return num(500)

    def hpQ(I, a, k, st, fr, fv):
        q = [x for x in list(a) + [k.get("Q")] if x is not None][-1]
        return num(400) + num(300) * q
    base = "tespy.tools.fluid_properties.wrappers.CoolPropWrapper."
    I.intrinsics[base + "h_pT"] = hpT
    I.intrinsics[base + "T_ph"] = Tph
    I.intrinsics[base + "h_pQ"] = hpQ
    return w


def run(ctx):
    ctx.rule = ("converged == some iteration >= min_iter has the residual norms of itself and its predecessor < 1e-3 and no singular matrix up to it; "
                "increment == -J^-1 residual; update == value + increment within limits; writes to non-variables == none")
    P = program(STUBS)
    verdicts(ctx, P)
    newton(ctx, P)
    updates(ctx, P)
    determination(ctx, P)
    driver(ctx, P)
    safeguards(ctx, P)
    ranges(ctx, P)
    ctx.floor("iteration histories", ctx.counts.get("iteration histories", 0), 4)
    return EXPL
