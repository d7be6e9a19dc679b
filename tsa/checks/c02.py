"""Connection specifications: residual definitions, derivatives, presolve."""
import itertools

from .. import dd
from ..common import program, where, spec, same
from ..conn import ConnModel
from ..interp import MISSING, sym, num, OBJS, Ref
from ..jac import compare
from ..poly import R, map_atoms
from .c01 import short, kindof

EXPL = ("Every equation a connection can contribute (properties, references to other connections, fluid balance) is "
        "taken from the connection class's own parameter table; residual and derivative routines are value-numbered "
        "with symbolic state, the residual is compared with the definition of the specification, every stored "
        "derivative with the derivative of the residual; the presolve step is analysed for all combinations of set flags.")

T = "T_mix_ph(%(c)s.p.val_SI, %(c)s.h.val_SI, %(c)s.fluid_data, %(c)s.mixing_rule)"
V = "v_mix_ph(%(c)s.p.val_SI, %(c)s.h.val_SI, %(c)s.fluid_data, %(c)s.mixing_rule)*%(c)s.m.val_SI"
DEF = {
    "T": (T % {"c": "c"} + " - c.T.val_SI", True),
    "v": (V % {"c": "c"} + " - c.v.val_SI", True),
    "x": ("c.h.val_SI - h_mix_pQ(c.p.val_SI, c.x.val_SI, c.fluid_data)", False),
    "Td_bp": (T % {"c": "c"} + " - T_sat_p(c.p.val_SI, c.fluid_data) - c.Td_bp.val_SI", False),
    "m_ref": ("c.m.val_SI - (r.m.val_SI * q.factor + q.delta_SI)", True),
    "p_ref": ("c.p.val_SI - (r.p.val_SI * q.factor + q.delta_SI)", True),
    "h_ref": ("c.h.val_SI - (r.h.val_SI * q.factor + q.delta_SI)", True),
    "T_ref": (T % {"c": "c"} + " - (" + T % {"c": "r"} + " * q.factor + q.delta_SI)", True),
    "v_ref": (V % {"c": "c"} + " - (" + V % {"c": "r"} + " * q.factor + q.delta_SI)", True),
}


def run(ctx):
    ctx.rule = "residual == definition (up to a constant factor); stored derivative == derivative of residual; presolved specification => its residual vanishes"
    P = program()
    ctx.units.add("src/tespy/connections/connection.py")
    equations(ctx, P)
    presolve(ctx, P)
    ctx.floor("connection equations", ctx.counts.get("connection equations", 0), 10)
    ctx.floor("presolve combinations", ctx.counts.get("presolve combinations", 0), 20)
    ctx.assumptions = ["property functions are functions of their arguments; starting values do not matter",
                       "x and Td_bp are specifications of pure fluids (a mixing rule does not apply)"]
    return EXPL


def equations(ctx, P):
    for shared in ((), ("fluid",), ("m", "fluid")):
        for mixing in (True, False):
            cm = ConnModel(P, shared, mixing)
            m = cm.m
            for name, func, deriv, kw, neq in cm.equations():
                if name == "fluid_balance":
                    if shared == () and mixing:
                        fluid_balance(ctx, P, deriv)
                    continue
                if DEF.get(name, (None, True))[1] != mixing:
                    continue
                if shared and not name.endswith("_ref"):
                    continue
                if name == "m_ref" and "m" in shared:
                    continue   # a mass flow cannot refer to itself
                tag = " [both on one branch: shared %s]" % "+".join(shared) if shared else ""
                with ctx.guard("Connection.%s%s" % (name, tag)):
                    one(ctx, cm, name, func, deriv, kw, neq, tag)


def one(ctx, cm, name, func, deriv, kw, neq, tag):
    m = cm.m
    ctx.count("connection equations")
    res, exc = cm.residual(func, kw)
    jac, exc2 = cm.jacobian(deriv, kw)
    k0 = sym("k")
    key = "Connection.%s%s" % (name, tag)
    rows = {k: v for k, v in res.items()}
    ctx.check(set(rows) == {k0}, key + " row", where(func),
              "the residual is written to %s instead of the equation's own row" % list(rows))
    ctx.check(same(neq, num(1)), key + " num_eq", where(func), "num_eq is %s for one residual" % (neq,))
    if k0 not in rows:
        return
    if name in DEF and not tag:
        d = spec(m, DEF[name][0], {"c": cm.c, "r": cm.r, "q": cm.refs.get(name)})
        ctx.check(same(rows[k0], d, factor=True), key + " definition", where(func),
                  "residual is %s, the specification means %s = 0" % (short(rows[k0]), short(d)))
    r = {"rows": [rows[k0]], "jac": jac}
    for i, vn, kinds, exp, got, ung, fl in compare(m, r):
        kk = "%s d/d(%s)" % (key, vn)
        if "foreign" in kinds:
            ctx.violate(key + " " + vn, where(deriv), "entry stored in %s" % vn)
            continue
        if ung:
            ctx.violate(kk + " unguarded", where(deriv), "entry stored although %s is not a variable" % vn)
        if "wrong" in kinds:
            ctx.violate(kk, where(deriv), "stored derivative %s, derivative of the residual %s" % (short(got), short(exp)))
        elif "missing" in kinds and (not fl or name in ("T", "T_ref")):
            ctx.violate(kk, where(deriv), "dependence on %s (derivative %s) has no entry" % (vn, short(exp)))
        elif "undecided" in kinds:
            ctx.open(kk, "%s vs %s" % (short(got), short(exp)))
        else:
            ctx.ok(kk, short(got))


def fluid_balance(ctx, P, _):
    for tag, fix in (("all variable", {"re:.*fluid.is_var.*": True, "re:.*fluid.is_set.*": False}),
                     ("one set", {"in1.fluid.is_var[H2O]": True, "in1.fluid.is_var[N2]": False,
                                  "in1.fluid.is_set[N2]": True, "re:.*fluid.is_set.*": False})):
        cm = ConnModel(P, fix=fix)
        m = cm.m
        for name, func, deriv, kw, neq in cm.equations():
            if name != "fluid_balance":
                continue
            key = "Connection.fluid_balance [%s]" % tag
            with ctx.guard(key):
                ctx.count("connection equations")
                res, _ = cm.residual(func, kw)
                jac, _ = cm.jacobian(deriv, kw)
                r = list(res.values())[0]
                d = spec(m, "1 - c.fluid.val['H2O'] - c.fluid.val['N2']", {"c": cm.c})
                ctx.check(same(r, d, factor=True), key + " definition", where(func),
                          "residual %s, the mass fractions must add up to one" % short(r))
                for i, vn, kinds, exp, got, ung, fl in compare(m, {"rows": [r], "jac": jac}):
                    kk = "%s d/d(%s)" % (key, vn)
                    if kinds & {"wrong", "missing", "foreign"} or ung:
                        ctx.violate(kk, where(deriv), "stored %s, derivative of the residual is %s" % (short(got), short(exp)))
                    elif "undecided" in kinds:
                        ctx.open(kk, "undecided")
                    else:
                        ctx.ok(kk)


# ------------------------------------------------------------- presolve
def laws(r):
    """T_mix_ph(p, h_mix_pT(p, T)) = T;  T_mix_ph(p_sat(T), h(p_sat, x)) = T;
    x is implied by h = h_mix_pQ(p, x)."""
    def f(a):
        if a.kind == "fn" and a.args[0] == "T_mix_ph" and len(a.args) >= 3:
            p, h = a.args[1], a.args[2]
            if isinstance(h, R):
                ha = h.as_atom()
                if ha is not None and ha.kind == "fn":
                    if ha.args[0] == "h_mix_pT" and ha.args[1] == p:
                        return ha.args[2]
                    if ha.args[0] == "h_mix_pQ" and ha.args[1] == p:
                        pa = p.as_atom()
                        if pa is not None and pa.kind == "fn" and pa.args[0] == "p_sat_T":
                            return pa.args[1]
                        q = ha.args[2]
                        if q.is_const() and False:
                            return None
        return None
    return dd.apply(lambda x: map_atoms(x, f) if isinstance(x, R) else x, r)


def too_many(ctx, P, on):
    """a known composition and more than three further specifications"""
    tag = "+".join(k for k in on if on[k])
    key = "Connection.simplify_specifications [%s]" % tag
    with ctx.guard(key):
        fix = {"in1.%s.is_set" % k: v for k, v in on.items()}
        fix["re:in1\\..*\\._solved"] = False
        cm = ConnModel(P, mixing=False, fix=fix)
        f = cm.m.meth(cm.c, "simplify_specifications")
        _, st, exc = cm.m.run(f, [], {})
        got = sorted({x[1] for x in exc})
        ctx.check(got == ["TESPyNetworkError"] and st.pc is False, key + " refused", where(f), "the state of a connection with known composition is overdetermined by %s, the outcome is %s" % (tag, got or "accepted"))


def presolve(ctx, P):
    params = ["m", "p", "h", "T", "x", "Td_bp", "v"]
    for bits in itertools.product([False, True], repeat=len(params)):
        on = dict(zip(params, bits))
        if sum(bits) > 3:
            too_many(ctx, P, on)
            continue
        if on["m"]:
            continue
        # over-determined combinations the user cannot mean
        if sum(on[k] for k in ("p", "h", "T", "x", "Td_bp")) > 2:
            continue
        fix = {"in1.%s.is_set" % k: v for k, v in on.items()}
        fix["re:in1\\..*\\._solved"] = False
        cm = ConnModel(P, mixing=False, fix=fix)
        m = cm.m
        tag = "+".join(k for k in params if on[k]) or "nothing"
        key = "Connection.simplify_specifications [%s]" % tag
        with ctx.guard(key):
            f = m.meth(cm.c, "simplify_specifications")
            _, st, exc = m.run(f, [], {})
            if not ctx.check(not exc, key + " accepted", where(f), "the specification %s of a connection is refused: %s" % (tag, [x[1] for x in exc])):
                continue
            ctx.count("presolve combinations")
            m2 = m
            save = m.st
            m.st = st
            try:
                solved = {}
                for k in params:
                    s = m.attr(m.attr(cm.c, k), "_solved")
                    solved[k] = s
                w = where(f)
                if any(not isinstance(s, bool) for s in solved.values()):
                    ctx.open(key, "solved flags not decided")
                    continue
                for k in params:
                    if not solved[k]:
                        if not on[k]:
                            base = {"m": "in1.m.val_SI", "p": "in1.p.val_SI", "h": "in1.h.val_SI"}.get(k)
                        continue
                    ctx.count("presolved quantities")
                    if k in ("p", "h", "m"):
                        ctx.check(not on[k], key + " " + k, w, "%s is fixed by the user and solved again" % k)
                    else:
                        ctx.check(on[k], key + " " + k, w, "%s is marked as solved although the user did not set it" % k)
                        name, func, deriv, kw, neq = next(e for e in cm.equations() if e[0] == k)
                        res, _ = cm.residual(func, kw)
                        r = laws(list(res.values())[0])
                        z = same(r, num(0))
                        ctx.check(z, key + " " + k, w,
                                  "the %s specification is dropped from the equations, but with the presolved state its residual is %s" % (k, short(r)))
                nv = sum(1 for k in ("m", "p", "h") if solved[k])
                ne = sum(1 for k in params[3:] if solved[k])
                ctx.check(nv == ne, key + " balance", w,
                          "%d unknowns are removed but %d equations are dropped" % (nv, ne))
                for k in ("p", "h"):
                    v = m.attr(m.attr(cm.c, k), "val_SI")
                    if not solved[k]:
                        ctx.check(same(v, sym("in1.%s.val_SI" % k)), key + " keeps " + k, w,
                                  "%s changes its value without being marked as solved" % k)
            finally:
                m.st = save
