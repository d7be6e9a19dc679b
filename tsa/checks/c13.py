"""Fluid property layer: what each property function evaluates, from the
dispatch between pure fluids and mixtures down to the calls of the property
back-ends."""
from .. import dd
from ..common import program, spec, same, where
from ..dd import AND, NOT, OR, ite, apply, literals, restrict, leaves
from ..interp import (Interp, State, Frame, FuncV, Ref, OBJS, new_obj, num, sym, _safe, MISSING, _unhk)
from ..poly import R, atom, ZERO, ONE, map_atoms
from .. import chem
from ..model import Model
from .c01 import short

EXPL = ("Every property function is interpreted on symbolic pressure, temperature, enthalpy and composition with opaque "
        "back-end wrappers and compared with the mixing rules; every wrapper method is interpreted against an abstract "
        "back-end that records the state it was set to; finite differences are applied to symbolic polynomials.")
FP = "tespy.tools.fluid_properties."
FUN, MIX, HLP, WRP = FP + "functions", FP + "mixtures", FP + "helpers", FP + "wrappers"
REL = "src/tespy/tools/fluid_properties/"
METHODS = ("isentropic T_ph T_ps h_pT h_pQ h_ps h_QT s_QT T_sat p_sat Q_ph phase_ph d_ph d_pT d_QT "
           "viscosity_ph viscosity_pT s_ph s_pT").split()
FLUIDS = ("N2", "O2", "H2O")


class FluidModel:
    """fluid_data of a stream with abstract wrappers"""

    def __init__(self, P, fractions, names=FLUIDS, opaque=()):
        self.P = P
        self.I = I = Interp(P, opaque_props=False)
        chem.install(I)
        I.no_inline.discard("tespy.tools.helpers.newton_with_kwargs")
        I.no_inline.discard(HLP + ".darcy_friction_factor")
        self.st = State({}, {}, True)
        self.fr = Frame(P.modules[FUN], None, "<top>", None)
        self.fr.node = None
        self.self = None
        self.w = {}
        for f in names:
            o = new_obj("object", P.classes["CoolPropWrapper"], path="W_" + f)
            self.w[f] = o
            for a in ("_molar_mass", "_T_min", "_T_max", "_p_min", "_p_max", "_p_crit", "_T_crit"):
                self.st.heap[(o.oid, "a", a)] = sym(f + a)
            al = chem.ALIASES.get(f, [f])
            self.st.heap[(o.oid, "a", "_aliases")] = I.new_list(self.st, list(al))
        for c in P.classes.values():
            if c.module.name == WRP:
                for m in METHODS:
                    I.intrinsics["%s.%s.%s" % (WRP, c.name, m)] = self.wrap(m)
        self.x = dict(zip(names, fractions))
        self.data = {}
        for f in names:
            self.data[f] = I.new_dict(self.st, [("wrapper", self.w[f]), ("mass_fraction", self.x[f])])
        self.fd = I.new_dict(self.st, [(f, self.data[f]) for f in names])
        I.intrinsics["tespy.tools.helpers.newton_with_kwargs"] = self.newton

    @staticmethod
    def wrap(name):
        def h(I, args, kwargs, st, fr, fv):
            params = [a.arg for a in fv.k[0].args.args]
            vals = dict(zip(params, args))
            vals.update(kwargs)
            out = [vals.get(p) for p in params]
            if any(v is None for v in out):
                return I.unk("arguments of " + name)
            return apply(lambda *xs: R.of(atom("fn", "W." + name, *[_safe(x, I, st) for x in xs])), *[restrict(v, st.assume) for v in out])
        return h

    def newton(self, I, args, kwargs, st, fr, fv):
        """root of function(parameter) == target"""
        params = [a.arg for a in fv.k[0].args.args]
        vals = dict(zip(params, args))
        vals.update(kwargs)
        par, fun = vals.get("parameter"), vals.get("function")
        rest = {k: v for k, v in vals.items() if k not in params}
        if not isinstance(par, str):
            return I.unk("newton parameter")
        rest[par] = sym("root.")
        val = I.call(fun, [], dict(rest), st, fr)
        der = I.call(vals["derivative"], [], dict(rest), st, fr)
        dq = None
        if isinstance(rest.get("delta"), R):
            d = rest["delta"]
            hi, lo = dict(rest), dict(rest)
            hi[par], lo[par] = sym("root.") + d, sym("root.") - d
            a, b = I.call(fun, [], hi, st, fr), I.call(fun, [], lo, st, fr)
            dq = apply(lambda q, r: (q - r) / (num(2) * d) if isinstance(q, R) and isinstance(r, R) else I.unk("dq"), a, b)
        self.newtons.append((val, der, vals["target_value"], vals.get("val0"), vals.get("valmin"), vals.get("valmax"), dq))
        return apply(lambda a, b: R.of(atom("root", a, b)), val, restrict(vals["target_value"], st.assume))

    newtons = ()

    def call(self, mod, name, *args, **kw):
        self.newtons = []
        f = self.I.global_name(self.P.modules[mod], name, self.st)
        fr = Frame(self.P.modules[mod], None, "<top>", None)
        fr.node = None
        st = self.st.copy()
        v = self.I.call(f, list(args), kw, st, fr)
        self.after = st
        v = restrict(v, self.I.axioms)
        return v, [(pc, n) for pc, n, _ in fr.raises if pc is not False], f

    def pos(self, *exprs):
        """assume conditions (Python text)"""
        for e in exprs:
            c = self.spec(e)
            self.I.axioms.update(literals(c))
            assert restrict(c, self.I.axioms) is True, e

    def env(self, **kw):
        e = {"x_" + f: v for f, v in self.x.items()}
        e.update(self.w)
        e.update({"M_" + f: sym(f + "_molar_mass") for f in self.x})
        e.update({k: sym(k) for k in ("p", "T", "h", "s", "Q", "p_2", "pamb", "Tamb", "T0")})
        e.update(kw)
        return e

    def spec(self, text, **kw):
        return restrict(spec(self, text, self.env(**kw), module=HLP), self.I.axioms)


def root(a, b):
    return apply(lambda x, y: R.of(atom("root", x, y)), a, b)


def mixture(P, **kw):
    """three species, mass fractions summing to one, all present"""
    xo, xw = sym("xO2"), sym("xH2O")
    M = FluidModel(P, [ONE - xo - xw, xo, xw], **kw)
    M.pos("x_N2 > ERR", "x_O2 > ERR", "x_H2O > ERR")
    return M


def run(ctx):
    ctx.rule = "property function(p, T or h, composition) == mixing rule applied to back-end values of the same state"
    P = program()
    for f in ("functions.py", "mixtures.py", "helpers.py", "wrappers.py"):
        ctx.units.add(REL + f)
    for part in (pure, direct, inverse, condensing, missing_rule, differences, helpers, friction, newton, coolprop, iapws,
                 pyromat, iapws_phase, constructors, exergy, numeric, bus_newton, fluid_data):
        with ctx.guard(part.__name__):
            part(ctx, P)
    ctx.floor("property functions", ctx.counts.get("functions", 0), 60)
    ctx.floor("wrapper methods", ctx.counts.get("wrapper", 0), 40)
    return EXPL


PURE = [  # function, arguments, wrapper value
    ("T_mix_ph", "p, h", "W.T_ph(p, h)"),
    ("T_mix_ps", "p, s", "W.T_ps(p, s)"),
    ("h_mix_pT", "p, T", "W.h_pT(p, T)"),
    ("h_mix_pQ", "p, Q", "W.h_pQ(p, Q)"),
    ("Q_mix_ph", "p, h", "W.Q_ph(p, h)"),
    ("phase_mix_ph", "p, h", "W.phase_ph(p, h)"),
    ("p_sat_T", "T", "W.p_sat(T)"),
    ("T_sat_p", "p", "W.T_sat(p)"),
    ("s_mix_ph", "p, h", "W.s_ph(p, h)"),
    ("s_mix_pT", "p, T", "W.s_pT(p, T)"),
    ("v_mix_ph", "p, h", "1 / W.d_ph(p, h)"),
    ("v_mix_pT", "p, T", "1 / W.d_pT(p, T)"),
    ("viscosity_mix_ph", "p, h", "W.viscosity_ph(p, h)"),
    ("viscosity_mix_pT", "p, T", "W.viscosity_pT(p, T)"),
    ("isentropic", "p, h, p_2", "W.isentropic(p, h, p_2)"),
]
SATURATION = ("h_mix_pQ", "Q_mix_ph", "phase_mix_ph", "p_sat_T", "T_sat_p")


def pure(ctx, P):
    for which in range(3):
        x = [ZERO] * 3
        x[which] = ONE
        M = FluidModel(P, x)
        for rule in (None, "ideal-cond"):
            for name, args, text in PURE:
                key = "%s of pure fluid %d of 3, mixing rule %s" % (name, which + 1, rule)
                with ctx.guard(key):
                    e = M.env(W=M.w[FLUIDS[which]])
                    a = [e[k.strip()] for k in args.split(",")]
                    v, exc, f = M.call(FUN, name, *a, M.fd, mixing_rule=rule)
                    want = M.spec(text, W=M.w[FLUIDS[which]])
                    ctx.check(same(v, want) if not exc else False, key, where(f), "%s instead of %s %s" % (short(v), short(want), exc[:1]))
                    ctx.count("functions")
    M = mixture(P)
    for name in SATURATION:
        with ctx.guard(name):
            e = M.env()
            args = [t for n, t, _ in PURE if n == name][0]
            v, exc, f = M.call(FUN, name, *[e[k.strip()] for k in args.split(",")], M.fd, mixing_rule="ideal")
            ctx.check(any(pc is True for pc, _ in exc), name + " of a mixture is rejected", where(f), "no exception")


Y = "(x_%s / M_%s / (x_N2 / M_N2 + x_O2 / M_O2 + x_H2O / M_H2O))"


def y(f):
    return Y % (f, f)


def mixsum(term, w="x_{f} * "):
    return " + ".join((w + term).replace("{f}", f).replace("{y}", y(f)) for f in FLUIDS)


IDEAL = {
    "h": mixsum("{f}.h_pT(p * {y}, T)"),
    "s": mixsum("{f}.s_pT(p * {y}, T)"),
    "v": "1 / (" + mixsum("{f}.d_pT(p * {y}, T)", "") + ")",
    "viscosity": "(" + mixsum("{y} * M_{f} ** 0.5 * {f}.viscosity_pT(p, T)", "") + ") / (" + mixsum("{y} * M_{f} ** 0.5", "") + ")",
}
INCOMP = {
    "h": mixsum("{f}.h_pT(p, T)"),
    "s": mixsum("{f}.s_pT(p, T)"),
    "v": mixsum("1 / {f}.d_pT(p, T)"),
    "viscosity": mixsum("{f}.viscosity_pT(p, T)"),
}
NL = "(yw - (1 - yw) / (p / H2O.p_sat(T) - 1))"          # mole liquid per mole
ML = NL + " * M_H2O / (" + mixsum("{y} * M_{f}", "") + ")"   # kg liquid per kg


def cond(kind):
    if kind == "viscosity":
        return IDEAL[kind]
    gas = {f: "p * %s / (1 - nl)" % y(f) for f in FLUIDS}
    if kind in "hs":
        o = " + ".join("x_%s * %s.%s_pT(%s, T)" % (f, f, kind, gas[f]) for f in ("N2", "O2"))
        return "H2O.%s_QT(0, T) * ml + H2O.%s_QT(1, T) * (x_H2O - ml) + %s" % (kind, kind, o)
    o = " + ".join("%s.d_pT(%s, T)" % (f, gas[f]) for f in ("N2", "O2"))
    return "ml / H2O.d_QT(0, T) + (1 - ml) / (H2O.d_QT(1, T) + %s)" % o


def direct(ctx, P):
    """Mixing rules at given temperature."""
    M = mixture(P)
    for kind in ("h", "s", "v", "viscosity"):
        for rule, table in (("ideal", IDEAL), ("incompressible", INCOMP)):
            key = "%s_mix_pT, rule %s" % (kind, rule)
            with ctx.guard(key):
                v, exc, f = M.call(FUN, kind + "_mix_pT", sym("p"), sym("T"), M.fd, rule)
                want = M.spec(table[kind])
                ctx.check(same(v, want) if not exc else False, key, where(f), "differs from the mixing rule: %s" % short(v))
                ctx.count("functions")
    # species below precision do not contribute
    M = FluidModel(P, [ONE - sym("xO2"), sym("xO2"), ZERO])
    M.pos("x_N2 > ERR", "x_O2 > ERR")
    for kind in ("h", "s", "v", "viscosity"):
        for rule, table in (("ideal", IDEAL), ("incompressible", INCOMP), ("ideal-cond", IDEAL)):
            key = "%s_mix_pT without water, rule %s" % (kind, rule)
            with ctx.guard(key):
                v, exc, f = M.call(FUN, kind + "_mix_pT", sym("p"), sym("T"), M.fd, rule)
                t = mixdrop(table[kind])
                want = M.spec(t)
                ctx.check(same(v, want) if not exc else False, key, where(f), "differs from the mixing rule: %s" % short(v))
                ctx.count("functions")
    # gas at the reference state also below saturation of water
    M = mixture(P)
    with ctx.guard("forced-gas"):
        v, exc, f = M.call(FUN, "h_mix_pT", sym("p"), sym("T"), M.fd, "forced-gas")
        pw = "p * " + y("H2O")
        rest = " + ".join("x_%s * %s.h_pT(p * %s, T)" % (g, g, y(g)) for g in ("N2", "O2"))
        a = M.spec("%s + x_H2O * H2O.h_QT(1, T)" % rest)
        b = M.spec("%s + x_H2O * H2O.h_pT(%s, T)" % (rest, pw))
        c = M.spec("(%s >= H2O._p_min) and (T <= H2O.T_sat(%s))" % (pw, pw))
        want = ite(c, a, b)
        ctx.check(same(v, want) if not exc else False, "h_mix_pT, rule forced-gas", where(f), "differs: %s" % short(v))
        ctx.count("functions")


def mixdrop(t):
    """text of a mixing rule without its water terms"""
    import ast

    class D(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Add) and mentions(n.right) and not isinstance(n.right, ast.BinOp):
                return n.left
            return n

    def mentions(n):
        return any(isinstance(q, ast.Name) and q.id in ("x_H2O", "H2O", "M_H2O") for q in ast.walk(n))

    class E(ast.NodeTransformer):
        def visit_BinOp(self, n):
            if isinstance(n.op, ast.Add) and top_water(n.right):
                return self.visit(n.left)
            return self.generic_visit(n)

    def top_water(n):
        """a product/quotient whose factors contain a water name"""
        while isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div)):
            if isinstance(n.right, ast.Name) and n.right.id in ("x_H2O", "M_H2O") or is_water_call(n.right):
                return True
            n = n.left
        return isinstance(n, ast.Name) and n.id in ("x_H2O", "M_H2O") or is_water_call(n)

    def is_water_call(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow):
            n = n.left
        if isinstance(n, ast.Name):
            return n.id == "M_H2O"
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "H2O"
    return ast.unparse(ast.fix_missing_locations(E().visit(ast.parse(t, mode="eval"))))


def condensing(ctx, P):
    """ideal-cond: saturated vapour and liquid water below the dew point"""
    for wet in (True, False, "supercritical"):
        M = mixture(P)
        if wet == "supercritical":
            M.pos("not (T < H2O._T_crit)")
        else:
            M.pos("T < H2O._T_crit")
        pre = M.spec("H2O.p_sat(T) < p * " + y("H2O"))
        if wet != "supercritical":
            M.I.axioms.update(literals(pre if wet else NOT(pre)))
        env = {}
        if wet is True:
            env["yw"] = M.spec(y("H2O"))
            env["nl"] = M.spec(NL, **env)
            env["ml"] = M.spec(ML, **env)
            c = M.spec("ml > ERR", **env)
            M.I.axioms.update(literals(c))
            M.I.axioms.update(literals(NOT(M.spec("ml == 0", **env))))
        for kind in ("h", "s", "v", "viscosity"):
            key = "%s_mix_pT, rule ideal-cond, %s" % (kind, {True: "condensing", False: "above dew point"}.get(wet, wet))
            with ctx.guard(key):
                v, exc, f = M.call(FUN, kind + "_mix_pT", sym("p"), sym("T"), M.fd, "ideal-cond")
                want = M.spec(cond(kind) if wet is True else IDEAL[kind], **env)
                ctx.check(same(v, want) if not exc else False, key, where(f), "differs from the mixing rule: %s" % short(v))
                ctx.count("functions")


RULES = {"T_mix_ph": ("ideal", "incompressible"), "T_mix_ps": ("ideal", "incompressible")}


def inverse(ctx, P):
    """Temperature from enthalpy or entropy and everything built on it."""
    for rule, table in (("ideal", IDEAL), ("incompressible", INCOMP)):
        M = mixture(P)
        T1 = root(M.spec(table["h"], T=sym("root.")), sym("h"))
        Ts = root(M.spec(table["s"], T=sym("root.")), sym("s"))
        want = {"T_mix_ph": T1, "T_mix_ps": Ts}
        for k in ("s", "v", "viscosity"):
            want[k + "_mix_ph"] = M.spec(table[k], T=T1)
        s1 = M.spec(table["s"], T=T1)
        T2 = root(M.spec(table["s"], p=sym("p_2"), T=sym("root.")), s1)
        want["isentropic"] = M.spec(table["h"], p=sym("p_2"), T=T2)
        for name, w in want.items():
            for T0 in (None, sym("T0")):
                key = "%s, rule %s%s" % (name, rule, "" if T0 is None else ", starting temperature")
                with ctx.guard(key):
                    args = [t for n, t, _ in PURE if n == name][0]
                    e = M.env()
                    for t in ("T0 is None", "T0 == 0", "np.isnan(T0)"):
                        M.I.axioms.update(literals(NOT(M.spec(t))))
                    v, exc, f = M.call(FUN, name, *[e[k.strip()] for k in args.split(",")], M.fd, rule, T0)
                    ctx.check(same(v, w) if not exc else False, key, where(f), "%s %s" % (short(v), exc[:1]))
                    ctx.count("functions")
                    for n in M.newtons:
                        check_slope(ctx, M, key, f, n)
                        v0 = n[3]
                        if T0 is None or name == "isentropic":
                            continue
                        ctx.check(same(v0, T0), key + ": iteration starts from the given temperature", where(f), "%s" % short(v0))


def halves(v):
    """powers of the unknown in terms of its square root"""
    r, half = sym("root.").as_atom(), sym("sqrt root.")

    def f(a):
        if a is r:
            return half * half
        if a.kind == "fn" and a.args[0] == "pow" and isinstance(a.args[1], R) and a.args[1].as_atom() is r and a.args[2].is_const():
            q = a.args[2].const_val() * 2
            if q.denominator == 1:
                return half.ipow(int(q)) if q >= 0 else ONE / half.ipow(int(-q))
        return None
    return apply(lambda x: map_atoms(x, f) if isinstance(x, R) else x, v)


def check_slope(ctx, M, key, f, n):
    """derivative handed to the iteration: exact, or a difference quotient"""
    val, der, dq = n[0], n[1], n[6]
    D = Model.__new__(Model)
    D.I, D.fluids = M.I, ()
    exact = D.D(val, sym("root.").as_atom())
    ok = same(halves(der), halves(exact))
    if not ok and dq is not None:
        ok = same(der, dq)
    ctx.check(ok, key + ": slope of the iteration", where(f), "%s" % short(der))


def missing_rule(ctx, P):
    M = mixture(P)
    have = {"T_mix_ph": ("ideal", "ideal-cond", "incompressible"), "T_mix_ps": ("ideal", "ideal-cond", "incompressible"),
            "h_mix_pT": ("ideal", "ideal-cond", "incompressible", "forced-gas"), "s_mix_pT": ("ideal", "ideal-cond", "incompressible"),
            "v_mix_pT": ("ideal", "ideal-cond", "incompressible"), "viscosity_mix_pT": ("ideal", "ideal-cond", "incompressible")}
    for name, rules in have.items():
        for rule in rules:
            with ctx.guard("%s knows %s" % (name, rule)):
                v, exc, f = M.call(FUN, name, sym("p"), sym("T"), M.fd, rule)
                ctx.check(not any(pc is True for pc, _ in exc), "%s knows mixing rule %s" % (name, rule), where(f), "%s" % exc[:1])
        for rule in ("nonsense", None):
            with ctx.guard("%s rejects %s" % (name, rule)):
                v, exc, f = M.call(FUN, name, sym("p"), sym("T"), M.fd, rule)
                ctx.check(any(pc is True and n == "KeyError" for pc, n in exc), "%s rejects mixing rule %s" % (name, rule), where(f), "%s" % exc[:2])


DIFF = [  # finite difference, base function, differentiated argument, arguments
    ("dT_mix_pdh", "T_mix_ph", 1, "p, h"),
    ("dT_mix_dph", "T_mix_ph", 0, "p, h"),
    ("dv_mix_pdh", "v_mix_ph", 1, "p, h"),
    ("dv_mix_dph", "v_mix_ph", 0, "p, h"),
    ("dh_mix_dpQ", "h_mix_pQ", 0, "p, Q"),
    ("dT_sat_dp", "T_sat_p", 0, "p"),
]


def bilinear(M, name, xs, rule):
    c = [sym("c%d_%s" % (i, name)) for i in range(8)]
    a, b = (list(xs) + [ZERO])[:2]
    r = c[0] + c[1] * a + c[2] * b + c[3] * a * b
    return r


def differences(ctx, P):
    for name, base, i, args in DIFF:
        for rule in ("ideal", None):
            M = mixture(P)
            seen = []

            def fn(I, a, kw, st, fr, fv, base=base):
                params = [q.arg for q in fv.k[0].args.args]
                vals = dict(zip(params, a))
                vals.update(kw)
                seen.append((vals.get("T0"), vals.get("mixing_rule"), vals.get("fluid_data")))
                xs = [vals[q] for q in params[:params.index("fluid_data")]]
                M.results.append(apply(lambda *q: bilinear(M, base, q, None), *xs))
                return M.results[-1]
            M.results = []
            M.I.intrinsics[FUN + "." + base] = fn
            key = "%s, mixing rule %s" % (name, rule)
            with ctx.guard(key):
                e = M.env()
                xs = [e[k.strip()] for k in args.split(",")]
                takes_T0 = base in ("T_mix_ph", "v_mix_ph")
                kw = {"T0": sym("T0")} if takes_T0 else {}
                v, exc, f = M.call(FUN, name, *xs, M.fd, mixing_rule=rule, **kw)
                c = [sym("c%d_%s" % (k, base)) for k in range(8)]
                other = xs[1 - i] if len(xs) > 1 else ZERO
                want = c[1 + i] + c[3] * other
                ctx.check(same(v, want) if not exc else False, key, where(f), "%s is not the derivative of a bilinear function" % short(v))
                ctx.check(all(r == rule or not takes_T0 and r is None for _, r, _ in seen) and all(d is M.fd for _, _, d in seen) and bool(seen),
                          key + ": passes composition and mixing rule on", where(f), "%s" % [r for _, r, _ in seen])
                if takes_T0:
                    okT = [None, sym("T0")] + (M.results if base == "T_mix_ph" else [])
                    ctx.check(all(any(t is q or (isinstance(t, R) and isinstance(q, R) and t == q) for q in okT) for t, _, _ in seen),
                              key + ": starting value is a temperature", where(f), "%s" % [short(t) for t, _, _ in seen])
                ctx.count("functions")
    # composition derivative
    for fl in ("O2", "H2O"):
        xs0 = [sym("x1"), sym("x2"), sym("x3")]
        M = FluidModel(P, xs0)

        def fn(I, a, kw, st, fr, fv):
            params = [q.arg for q in fv.k[0].args.args]
            vals = dict(zip(params, a))
            vals.update(kw)
            fd = vals["fluid_data"]
            r = ZERO
            for k, f in enumerate(FLUIDS):
                d = I.dict_get(st, fd, f)
                r = apply(lambda q, w: q + sym("g%d" % k) * w * (vals["p"] + vals["h"]), r, I.dict_get(st, d, "mass_fraction"))
            return r
        M.I.intrinsics[FUN + ".T_mix_ph"] = fn
        key = "dT_mix_ph_dfluid for %s" % fl
        with ctx.guard(key):
            v, exc, f = M.call(FUN, "dT_mix_ph_dfluid", sym("p"), sym("h"), fl, M.fd, mixing_rule="ideal", T0=sym("T0"))
            want = sym("g%d" % FLUIDS.index(fl)) * (sym("p") + sym("h"))
            ctx.check(same(v, want) if not exc else False, key, where(f), "%s" % short(v))
            for k, g in enumerate(FLUIDS):
                left = M.I.dict_get(M.after, M.data[g], "mass_fraction")
                ctx.check(same(left, xs0[k]), key + " leaves the mass fraction of %s unchanged" % g, where(f), "%s" % short(left))
            ctx.count("functions")


def helpers(ctx, P):
    M = mixture(P)
    with ctx.guard("molar fractions"):
        v, exc, f = M.call(HLP, "get_molar_fractions", M.fd)
        for g in FLUIDS:
            got = M.I.dict_get(M.after, v, g)
            ctx.check(same(got, M.spec(y(g))), "molar fraction of %s" % g, where(f), "%s" % short(got))
        mm = M.I.new_dict(M.st, [(g, M.spec(y(g))) for g in FLUIDS])
        r, exc, f = M.call(HLP, "calc_molar_mass_mixture", M.fd, mm)
        ctx.check(same(r, M.spec(mixsum("{y} * M_{f}", ""))), "molar mass of a mixture", where(f), "%s" % short(r))
    for x, n in ((["1", "0", "0"], 1), (["0", "0", "1"], 1), (["0.5", "0.5", "0"], 2), (["0.2", "0.3", "0.5"], 3), (["0", "0", "0"], 0)):
        from fractions import Fraction as Fr
        M = FluidModel(P, [num(Fr(q)) for q in x])
        with ctx.guard("number of fluids %s" % x):
            r, exc, f = M.call(HLP, "get_number_of_fluids", M.fd)
            ctx.check(same(r, num(n)), "number of fluids at %s" % (x,), where(f), "%s" % short(r))
            if n == 1:
                r, exc, f = M.call(HLP, "get_pure_fluid", M.fd)
                k = x.index("1")
                ctx.check(isinstance(r, Ref) and r is M.data[FLUIDS[k]], "pure fluid at %s" % (x,), where(f), "%s" % short(r))
                r, exc, f = M.call(HLP, "single_fluid", M.fd)
                ctx.check(r == FLUIDS[k], "single fluid at %s" % (x,), where(f), "%s" % short(r))
            elif n > 1:
                r, exc, f = M.call(HLP, "single_fluid", M.fd)
                ctx.check(r is None, "single fluid at %s" % (x,), where(f), "%s" % short(r))
    # temperature bounds of the inversion
    M = mixture(P)
    with ctx.guard("temperature range"):
        v, exc, f = M.call(HLP, "get_mixture_temperature_range", M.fd)
        lo = M.spec("max([N2._T_min, O2._T_min, H2O._T_min])")
        hi = M.spec("min([N2._T_max, O2._T_max, H2O._T_max])")
        a, b = v
        d1 = apply(lambda q, r: (q - r).const_val() if isinstance(q, R) and isinstance(r, R) and (q - r).is_const() else None, a, lo)
        d2 = apply(lambda q, r: (q - r).const_val() if isinstance(q, R) and isinstance(r, R) and (q - r).is_const() else None, hi, b)
        ls = [l for _, l in leaves(d1)] + [l for _, l in leaves(d2)]
        ctx.check(all(l is not None and 0 <= l <= 1 for l in ls), "temperature range of a mixture", where(f),
                  "not the intersection of the ranges of its fluids: %s, %s" % (short(a), short(b)))


def friction(ctx, P):
    M = FluidModel(P, [ONE, ZERO, ZERO])
    e = dict(re=sym("re"), ks=sym("ks"), d=sym("d"), lam=sym("root."))
    pk = "2 * math.log10(re * lam ** 0.5) - 0.8 - 1 / lam ** 0.5"
    cb = "2 * math.log10(2.51 / (re * lam ** 0.5) + ks / (3.71 * d)) + 1 / lam ** 0.5"
    regimes = [
        ("laminar", ["re <= 2320"], "64 / re"),
        ("smooth, re <= 1e4", ["not re <= 2320", "re * ks / d < 65", "re <= 1e4"], "0.3164 * re ** (-0.25)"),
        ("smooth, re < 1e6", ["not re <= 2320", "re * ks / d < 65", "not re <= 1e4", "re < 1e6"], "(1.8 * math.log10(re) - 1.5) ** (-2)"),
        ("smooth, re >= 1e6", ["not re <= 2320", "re * ks / d < 65", "not re <= 1e4", "not re < 1e6"], ("root", pk)),
        ("rough", ["not re <= 2320", "not re * ks / d < 65"], ("root", cb)),
    ]
    for name, assume, text in regimes:
        key = "friction factor, " + name
        with ctx.guard(key):
            M = FluidModel(P, [ONE, ZERO, ZERO])
            for a in assume:
                c = M.spec(a, **e)
                M.I.axioms.update(literals(c))
            v, exc, f = M.call(HLP, "darcy_friction_factor", sym("re"), sym("ks"), sym("d"))
            if isinstance(text, tuple):
                want = M.spec(text[1], **e)
                ok = any(same(n[0], want) and same(n[2], ZERO) for n in M.newtons) and isinstance(v, R) and v.as_atom() is not None and v.as_atom().kind == "root"
                ok = ok or None if not M.newtons else ok
                ctx.check(ok, key, where(f), "%s" % short(v))
                for n in M.newtons:
                    check_slope(ctx, M, key, f, n)
            else:
                ctx.check(same(v, M.spec(text, **e)), key, where(f), "%s" % short(v))
            ctx.count("functions")




def newton(ctx, P):
    """One step of the iteration and its termination."""
    H = "tespy.tools.helpers"
    f, df = "f", "df"

    def setup(unroll, **kw):
        M = FluidModel(P, [ONE, ZERO, ZERO])
        del M.I.intrinsics["tespy.tools.helpers.newton_with_kwargs"]
        M.I.unroll = unroll
        M.I.intrinsics["ext:fun"] = lambda I, a, k, st, fr: apply(lambda q: R.of(atom("fn", "fun", q)), k["X"])
        M.I.intrinsics["ext:der"] = lambda I, a, k, st, fr: apply(lambda q: R.of(atom("fn", "der", q)), k["X"])
        args = dict(val0=sym("x0"), valmin=sym("lo"), valmax=sym("hi"), parameter="X", function=M.I.ext("fun"))
        args.update(kw)
        v, exc, fn = M.call(H, "newton_with_kwargs", M.I.ext("der"), sym("target"), **args)
        return M, v, exc, fn
    M, v, exc, fn = setup(0, max_iter=ZERO)
    x = sym("x0")
    fx = R.of(atom("fn", "fun", x))
    x1 = x + (sym("target") - fx) / R.of(atom("fn", "der", x))
    M.st.locals = {}
    e = dict(x1=x1, lo=sym("lo"), hi=sym("hi"))
    # the interval is not empty
    want = M.spec("lo if x1 < lo else (hi if x1 > hi else x1)", **e)
    v2 = v
    c = literals(M.spec("lo <= hi", **e))
    w = same(restrict(v2, c), restrict(want, c))
    ctx.check(w, "newton_with_kwargs: one step", where(fn), "%s" % short(v))
    # leaving the loop early requires the residual to be below the tolerance
    for mode in ("rel", "abs"):
        M, v, exc, fn = setup(1, tol_rel=sym("tolr"), tol_abs=sym("tola"), tol_mode=mode)
        key = "newton_with_kwargs: termination, tolerance mode " + mode
        hits = 0
        bad = None
        t = sym("target")
        conds = {"rel": "abs((target - fx) / target) >= tolr", "abs": "abs(target - fx) >= tola"}
        env = dict(target=t, fx=fx, tolr=sym("tolr"), tola=sym("tola"))
        allowed = [literals(NOT(M.spec(conds[m], **env))) for m in (("abs",) if mode == "abs" else ("rel", "abs"))]
        for path, leaf in leaves(v):
            if isinstance(leaf, R) and not any(a.kind == "unk" for a in leaf.atoms()):
                hits += 1
                if not any(all((k, b) in path for k, b in al.items()) for al in allowed):
                    bad = leaf
        ctx.check(None if not hits else bad is None, key, where(fn), "the iteration may stop with the residual above the tolerance (%s)" % short(bad))


def backend(P, cls, back_end=None):
    M = FluidModel(P, [ONE, ZERO, ZERO])
    for c in P.classes.values():
        if c.module.name == WRP:
            for m in METHODS:
                M.I.intrinsics.pop("%s.%s.%s" % (WRP, c.name, m), None)
    o = new_obj("object", P.classes[cls], path="wrapper")
    for a in ("_molar_mass", "_T_min", "_T_max", "_p_min", "_p_max", "_p_crit", "_T_crit"):
        M.st.heap[(o.oid, "a", a)] = sym("w" + a)
    M.st.heap[(o.oid, "a", "back_end")] = back_end
    return M, o


PAIRS = {"HmassP_INPUTS": ("h", "p"), "PSmass_INPUTS": ("p", "s"), "PQ_INPUTS": ("p", "Q"), "PT_INPUTS": ("p", "T"), "QT_INPUTS": ("Q", "T"),
         "DmassP_INPUTS": ("d", "p"), "DmassT_INPUTS": ("d", "T"), "HmassSmass_INPUTS": ("h", "s"), "SmassT_INPUTS": ("s", "T"), "HmassT_INPUTS": ("h", "T")}
OUT = {"T": "T", "p": "p", "hmass": "h", "smass": "s", "rhomass": "d", "viscosity": "viscosity", "Q": "Q", "phase": "phase"}
KEYED = {"iT": "T", "iP": "p", "iHmass": "h", "iSmass": "s", "iDmass": "d", "iviscosity": "viscosity", "iQ": "Q", "iPhase": "phase"}
STATES = {  # method: property, state, argument order of the method
    "T_ph": ("T", "ph", "p, h"), "T_ps": ("T", "ps", "p, s"), "h_pQ": ("h", "pQ", "p, Q"), "h_ps": ("h", "ps", "p, s"), "h_pT": ("h", "pT", "p, T"),
    "h_QT": ("h", "QT", "Q, T"), "s_QT": ("s", "QT", "Q, T"), "d_ph": ("d", "ph", "p, h"), "d_pT": ("d", "pT", "p, T"), "d_QT": ("d", "QT", "Q, T"),
    "viscosity_ph": ("viscosity", "ph", "p, h"), "viscosity_pT": ("viscosity", "pT", "p, T"), "s_ph": ("s", "ph", "p, h"), "s_pT": ("s", "pT", "p, T"),
}


def cpval(prop, **state):
    ks = sorted(state)
    return apply(lambda *xs: R.of(atom("fn", "state." + prop, *[q for kv in zip(ks, xs) for q in kv])), *[state[k] for k in ks])


def method(M, o, name, *args):
    fr = Frame(M.P.modules[WRP], None, "<top>", None)
    fr.node = None
    st = M.st.copy()
    f = M.I.getattr_(o, name, st, fr)
    v = M.I.call(f, list(args), {}, st, fr)
    return restrict(v, st.assume), [(pc, n) for pc, n, _ in fr.raises if pc is not False], f


def const_name(v):
    s = getattr(v, "k", None)
    n = s[0] if s else (v.as_atom().args[0] if isinstance(v, R) and v.as_atom() is not None and v.as_atom().args else v)
    return str(n).split(".")[-1]


def coolprop(ctx, P):
    M, o = backend(P, "CoolPropWrapper", "HEOS")
    AS = new_obj("object", None, path="AS")
    M.st.heap[(o.oid, "a", "AS")] = AS

    def update(I, a, k, st, fr):
        pair = PAIRS.get(const_name(a[0]))
        if pair is None:
            st.heap[(AS.oid, "a", "state")] = I.unk("input pair")
        else:
            st.heap[(AS.oid, "a", "state")] = tuple(sorted(zip(pair, a[1:]), key=lambda q: q[0]))
        return None

    def output(prop):
        def h(I, a, k, st, fr):
            s = restrict(st.heap.get((AS.oid, "a", "state")), st.assume)
            p = prop
            if p is None:
                p = KEYED.get(const_name(a[0]))
            def one(s):
                if not isinstance(s, tuple) or p is None:
                    return I.unk("state of the back-end")
                return cpval(p, **dict(s))
            vals = [one(s) if not isinstance(s, dd.DD) else apply(one, s)]
            return vals[0]
        return h
    # what an earlier evaluation left in the state object
    M.st.heap[(AS.oid, "a", "state")] = (("h", sym("h_before")), ("p", sym("p_before")))
    M.st.heap[(AS.oid, "a", "update")] = M.I.ext("AS.update")
    M.I.intrinsics["ext:AS.update"] = update
    for m, prop in OUT.items():
        M.st.heap[(AS.oid, "a", m)] = M.I.ext("AS." + m)
        M.I.intrinsics["ext:AS." + m] = output(prop)
    M.st.heap[(AS.oid, "a", "keyed_output")] = M.I.ext("AS.keyed_output")
    M.I.intrinsics["ext:AS.keyed_output"] = output(None)
    e = {k: sym(k) for k in ("p", "h", "s", "T", "Q", "p_2")}
    for name, (prop, state, args) in STATES.items():
        key = "CoolPropWrapper." + name
        with ctx.guard(key):
            v, exc, f = method(M, o, name, *[e[k.strip()] for k in args.split(",")])
            want = cpval(prop, **{k: e[k] for k in state})
            ctx.check(same(v, want) if not exc else False, key, where(f), "%s instead of %s" % (short(v), short(want)))
            ctx.count("wrapper")
    pc = M.spec("(pcrit * 0.99) if p > pcrit else p", pcrit=sym("w_p_crit"))
    Tc = M.spec("(Tcrit * 0.99) if T > Tcrit else T", Tcrit=sym("w_T_crit"))
    sub = M.spec("p > pcrit", pcrit=sym("w_p_crit"))
    for name, arg, below, want in (
            ("T_sat", "p", NOT(sub), [cpval("T", p=e["p"], Q=ZERO), cpval("T", p=e["p"], Q=ONE)]),
            ("p_sat", "T", NOT(M.spec("T > Tcrit", Tcrit=sym("w_T_crit"))), [cpval("p", T=e["T"], Q=ZERO), cpval("p", T=e["T"], Q=ONE)])):
        key = "CoolPropWrapper." + name
        with ctx.guard(key):
            v, exc, f = method(M, o, name, e[arg])
            v = restrict(v, literals(below))
            ctx.check(True if any(same(v, w) for w in want) else same(v, want[0]), key, where(f), "%s" % short(v))
            ctx.count("wrapper")
    with ctx.guard("isentropic"):
        v, exc, f = method(M, o, "isentropic", e["p"], e["h"], e["p_2"])
        want = cpval("h", p=e["p_2"], s=cpval("s", p=e["p"], h=e["h"]))
        ctx.check(same(v, want) if not exc else False, "CoolPropWrapper.isentropic", where(f), "%s" % short(v))
        ctx.count("wrapper")
    with ctx.guard("vapour fraction"):
        ph = cpval("phase", p=e["p"], h=e["h"])
        for name, table in (("Q_ph", [("iphase_twophase", cpval("Q", p=e["p"], h=e["h"])), ("iphase_liquid", ZERO), ("iphase_gas", ONE)]),
                            ("phase_ph", [("iphase_twophase", "tp"), ("iphase_liquid", "l"), ("iphase_gas", "g")])):
            v, exc, f = method(M, o, name, e["p"], e["h"])
            v = restrict(v, literals(NOT(sub)))
            cp = M.I.global_name(P.modules[WRP], "CP", M.st)
            lits = {n: M.spec("ph == c", ph=ph, c=M.I.getattr_(cp, n, M.st, M.fr)) for n, _ in table}
            for n, w in table:
                a = {}
                for k, l in lits.items():
                    a.update(literals(l if k == n else NOT(l)))
                got = restrict(v, a)
                ctx.check(same(got, w), "CoolPropWrapper.%s in %s" % (name, n), where(f), "%s" % short(got))
                ctx.count("wrapper")
    with ctx.guard("critical temperature"):
        v, exc, f = method(M, o, "_is_below_T_critical", e["T"])
        ctx.check(same(v, M.spec("T < Tc", Tc=sym("w_T_crit"))), "CoolPropWrapper._is_below_T_critical", where(f), "%s" % short(v))
    # constants
    M, o = backend(P, "CoolPropWrapper", "HEOS")
    M.st.heap[(o.oid, "a", "fluid")] = "N2"
    M.st.heap[(o.oid, "a", "_fractions")] = None
    AS = new_obj("object", None, path="AS")
    M.st.heap[(o.oid, "a", "AS")] = AS
    M.st.heap[(AS.oid, "a", "trivial_keyed_output")] = M.I.ext("AS.tko")
    M.I.intrinsics["ext:AS.tko"] = lambda I, a, k, st, fr: sym("const." + const_name(a[0]))
    with ctx.guard("constants"):
        fr = Frame(P.modules[WRP], None, "<top>", None)
        fr.node = None
        st = M.st.copy()
        f = M.I.getattr_(o, "_set_constants", st, fr)
        M.I.call(f, [], {}, st, fr)
        for a, c in (("_T_min", "iT_min"), ("_T_max", "iT_max"), ("_p_min", "iP_min"), ("_p_max", "iP_max"), ("_p_crit", "iP_critical"),
                     ("_T_crit", "iT_critical"), ("_molar_mass", "imolar_mass")):
            got = st.heap.get((o.oid, "a", a))
            alt = {"imolar_mass": ["iMolar_mass", "imolar_mass"]}.get(c, [c])
            ctx.check(any(same(got, sym("const." + q)) for q in alt), "CoolPropWrapper." + a, where(f), "%s" % short(got))
            ctx.count("wrapper")

    with ctx.guard("upper temperature"):
        for be, want in (("HEOS", sym("w_T_max")), ("INCOMP", None)):
            M, o = backend(P, "CoolPropWrapper", be)
            M.I.intrinsics[WRP + ".CoolPropWrapper.T_sat"] = lambda I, a, k, st, fr, fv: R.of(atom("fn", "saturation", a[1]))
            v, exc, f = method(M, o, "get_T_max", e["p"])
            want = want or R.of(atom("fn", "saturation", e["p"]))
            ctx.check(same(v, want) if not exc else False, "CoolPropWrapper.get_T_max, %s" % be, where(f), "%s" % short(v))
            ctx.count("wrapper")
    with ctx.guard("incompressible mixtures"):
        for frac in (None, sym("fraction")):
            M, o = backend(P, "CoolPropWrapper", "INCOMP")
            M.st.heap[(o.oid, "a", "fluid")] = "MEG"
            M.st.heap[(o.oid, "a", "_fractions")] = frac
            AS = new_obj("object", None, path="AS")
            M.st.heap[(o.oid, "a", "AS")] = AS
            M.I.intrinsics["ext:AS.tko"] = lambda I, a, k, st, fr: sym("const." + const_name(a[0]))
            M.st.heap[(AS.oid, "a", "trivial_keyed_output")] = M.I.ext("AS.tko")
            given = []
            for q in ("set_volu_fractions", "set_mass_fractions"):
                M.st.heap[(AS.oid, "a", q)] = M.I.ext("AS." + q)
                M.I.intrinsics["ext:AS." + q] = lambda I, a, k, st, fr: given.append([x for x in I.iterate(a[0], st)])
            fr = Frame(P.modules[WRP], None, "<top>", None)
            fr.node = None
            st = M.st.copy()
            f = M.I.getattr_(o, "_set_constants", st, fr)
            M.I.call(f, [], {}, st, fr)
            got = st.heap.get((o.oid, "a", "_T_min"))
            ctx.check(same(got, sym("const.iT_freeze")), "CoolPropWrapper._T_min of an incompressible fluid", where(f), "%s" % short(got))
            got = st.heap.get((o.oid, "a", "_T_max"))
            ctx.check(same(got, sym("const.iT_max")), "CoolPropWrapper._T_max of an incompressible fluid", where(f), "%s" % short(got))
            ok = not given if frac is None else bool(given) and all(len(x) == 1 and same(x[0], frac) for x in given)
            ctx.check(ok, "fraction of an incompressible mixture, %s" % ("none" if frac is None else "given"), where(f), "%s" % (given,))
            ctx.count("wrapper")


SI_IAPWS = {"p": ("P", 10 ** 6), "h": ("h", 1000), "s": ("s", 1000), "T": ("T", 1), "Q": ("x", 1), "d": ("rho", 1), "viscosity": ("mu", 1)}


def iapws(ctx, P):
    M, o = backend(P, "IAPWSWrapper", "IF97")
    AS = sym("AS")
    M.st.heap[(o.oid, "a", "AS")] = AS
    e = {k: sym(k) for k in ("p", "h", "s", "T", "Q", "p_2")}

    def val(prop, **state):
        kw = ", ".join("%s=(%s) / %d" % (SI_IAPWS[k][0], k, SI_IAPWS[k][1]) for k in sorted(state))
        return M.spec("AS(%s).%s * %d" % (kw, SI_IAPWS[prop][0], SI_IAPWS[prop][1]), AS=AS, **state)
    todo = dict(STATES)
    for name, (prop, state, args) in todo.items():
        key = "IAPWSWrapper." + name
        with ctx.guard(key):
            v, exc, f = method(M, o, name, *[e[k.strip()] for k in args.split(",")])
            want = val(prop, **{k: e[k] for k in state})
            ctx.check(same(v, want) if not exc else False, key, where(f), "%s instead of %s" % (short(v), short(want)))
            ctx.count("wrapper")
    subp = literals(NOT(M.spec("p > pcrit", pcrit=sym("w_p_crit"))))
    subT = literals(NOT(M.spec("T > Tcrit", Tcrit=sym("w_T_crit"))))
    for name, arg, sub, ws in (("T_sat", ("p",), subp, [val("T", p=e["p"], Q=ZERO), val("T", p=e["p"], Q=ONE)]),
                               ("p_sat", ("T",), subT, [val("p", T=e["T"], Q=ZERO), val("p", T=e["T"], Q=ONE)]),
                               ("Q_ph", ("p", "h"), subp, [val("Q", p=e["p"], h=e["h"])])):
        key = "IAPWSWrapper." + name
        with ctx.guard(key):
            v, exc, f = method(M, o, name, *[e[k] for k in arg])
            v = restrict(v, sub)
            ctx.check(True if any(same(v, w) for w in ws) else same(v, ws[0]), key, where(f), "%s" % short(v))
            ctx.count("wrapper")
    with ctx.guard("IAPWS isentropic"):
        v, exc, f = method(M, o, "isentropic", e["p"], e["h"], e["p_2"])
        ctx.check(same(v, val("h", p=e["p_2"], s=val("s", p=e["p"], h=e["h"]))), "IAPWSWrapper.isentropic", where(f), "%s" % short(v))
        ctx.count("wrapper")
    with ctx.guard("IAPWS constants"):
        fr = Frame(P.modules[WRP], None, "<top>", None)
        fr.node = None
        st = M.st.copy()
        f = M.I.getattr_(o, "_set_constants", st, fr)
        lib = sym("iapws")
        M.I.call(f, [lib], {}, st, fr)
        for a, t in (("_T_min", "Tt"), ("_p_min", "Pt * 1000000"), ("_p_crit", "Pc * 1000000"), ("_T_crit", "Tc"), ("_molar_mass", "M / 1000")):
            got = st.heap.get((o.oid, "a", a))
            want = M.spec("iapws._iapws." + t, iapws=lib)
            ctx.check(same(got, want), "IAPWSWrapper.%s in SI units" % a, where(f), "%s" % short(got))
            ctx.count("wrapper")


def iapws_phase(ctx, P):
    table = {"Liquid": "l", "Vapour": "g", "Two phases": "tp", "Saturated vapor": "tp", "Saturated liquid": "tp"}
    for text, want in table.items():
        key = "IAPWSWrapper.phase_ph, %s" % text
        with ctx.guard(key):
            M, o = backend(P, "IAPWSWrapper", "IF97")
            res = new_obj("object", None, path="state")
            M.st.heap[(res.oid, "a", "phase")] = text
            args = []
            M.I.intrinsics["ext:AS97"] = lambda I, a, k, st, fr: args.append((a, k)) or res
            M.st.heap[(o.oid, "a", "AS")] = M.I.ext("AS97")
            v, exc, f = method(M, o, "phase_ph", sym("p"), sym("h"))
            ctx.check(v == want if isinstance(v, str) else None, key, where(f), "gives %s" % short(v))
            sub = literals(NOT(M.spec("p > pcrit", p=sym("p"), pcrit=sym("w_p_crit"))))
            ok = len(args) == 1 and not args[0][0] and set(args[0][1]) == {"h", "P"} and \
                same(args[0][1]["h"], M.spec("h / 1000", h=sym("h"))) and same(restrict(args[0][1]["P"], sub), M.spec("p / 1000000", p=sym("p")))
            ctx.check(ok if args else None, key + ": state", where(f), "%s" % (args,))
            ctx.count("wrapper")


def constructors(ctx, P):
    """Which library object a wrapper evaluates."""
    def make(cls, fluid, *be):
        M = FluidModel(P, [ONE, ZERO, ZERO])
        for k in [k for k in M.I.intrinsics if k.startswith(WRP + ".") or k.startswith("new:")]:
            M.I.intrinsics.pop(k)
        made = []

        def new(I, cls, a, k, st, fr):
            made.append(list(a))
            r = new_obj("object", None, path="AS")
            st.heap[(r.oid, "a", "trivial_keyed_output")] = I.ext("AS.tko")
            return r
        M.I.intrinsics["new:SerializableAbstractState"] = new
        M.I.intrinsics["ext:AS.tko"] = lambda I, a, k, st, fr: sym("const." + const_name(a[0]))
        for q in ("set_volu_fractions", "set_mass_fractions"):
            M.I.intrinsics["ext:AS." + q] = lambda I, a, k, st, fr: None
        M.I.intrinsics["ext:CoolProp.CoolProp.get_aliases"] = lambda I, a, k, st, fr: I.new_list(st, ["H2O", "Water", "water", "WATER", "h2o"])
        M.I.intrinsics["ext:pyromat.get"] = lambda I, a, k, st, fr: made.append(list(a)) or sym("pm")
        M.I.intrinsics[WRP + ".PyromatWrapper._set_constants"] = lambda *a: None
        fr = Frame(P.modules[WRP], None, "<top>", None)
        fr.node = None
        st = M.st.copy()
        o = M.I.instantiate(P.classes[cls], [fluid] + list(be), {}, st, fr)
        exc = [n for pc, n, _ in fr.raises if pc is True]
        get = lambda a: M.I.getattr_(o, a, st, fr) if isinstance(o, Ref) else None
        return get, exc, made
    init = {c: P.classes[c].find("__init__") for c in ("CoolPropWrapper", "IAPWSWrapper", "PyromatWrapper")}

    def wh(c):
        cl, node = init[c]
        return "%s:%d (%s.__init__)" % (cl.module.path if hasattr(cl.module, "path") else WRP, node.lineno, cl.name)
    for fluid, be, f, b in (("N2", (), "N2", "HEOS"), ("N2", ("TTSE&HEOS",), "N2", "TTSE&HEOS"), ("MEG[0.5]", ("INCOMP",), "MEG", "INCOMP")):
        key = "CoolPropWrapper of %s, back end %s" % (fluid, be or "not given")
        with ctx.guard(key):
            get, exc, made = make("CoolPropWrapper", fluid, *be)
            ctx.check(None if exc or not made else made == [[b, f]], key, wh("CoolPropWrapper"), "evaluates %s %s" % (made, exc))
            ctx.check(get("fluid") == f and get("back_end") == b and (get("_fractions") == "0.5" if "[" in fluid else get("_fractions") is None), key + ": name, fraction",
                      wh("CoolPropWrapper"), "%s, %s, %s" % (get("fluid"), get("back_end"), get("_fractions")))
            ctx.count("wrapper")
    for fluid, be, lib, refused in (("water", (), "IAPWS97", None), ("H2O", ("IF97",), "IAPWS97", None), ("water", ("IF95",), "IAPWS95", None),
                                    ("water", ("IF67",), None, "NotImplementedError"), ("N2", (), None, "ValueError")):
        key = "IAPWSWrapper of %s, back end %s" % (fluid, be or "not given")
        with ctx.guard(key):
            get, exc, made = make("IAPWSWrapper", fluid, *be)
            if refused:
                ctx.check(refused in exc, key + " is refused", wh("IAPWSWrapper"), "%s" % exc)
            else:
                v = get("AS")
                ctx.check(None if exc or v is None else str(v).split(".")[-1].strip(">)") == lib, key, wh("IAPWSWrapper"), "evaluates %s" % (v,))
            ctx.count("wrapper")
    for be in ("ig", "mp"):
        key = "PyromatWrapper of N2, %s" % be
        with ctx.guard(key):
            get, exc, made = make("PyromatWrapper", "N2", be)
            ctx.check(None if exc or not made else made == [["%s.N2" % be]], key, wh("PyromatWrapper"), "evaluates %s" % made)
            ctx.count("wrapper")


def pyromat(ctx, P):
    for be in ("ig", "mp"):
        M, o = backend(P, "PyromatWrapper", be)
        AS = sym("AS")
        M.st.heap[(o.oid, "a", "AS")] = AS
        e = {k: sym(k) for k in ("p", "h", "s", "T", "Q", "p_2")}

        def val(prop, **state):
            kw = ", ".join("%s=%s" % ({"Q": "x"}.get(k, k), k) for k in sorted(state))
            return M.spec("AS.%s(%s)[0]" % ({"Q": "x"}.get(prop, prop), kw), AS=AS, **state)
        todo = {k: v for k, v in STATES.items() if k not in ("h_pQ", "viscosity_ph", "viscosity_pT")}
        for name, (prop, state, args) in todo.items():
            key = "PyromatWrapper.%s, %s" % (name, be)
            with ctx.guard(key):
                v, exc, f = method(M, o, name, *[e[k.strip()] for k in args.split(",")])
                if any(pc is True and n == "NotImplementedError" for pc, n in exc):
                    ctx.ok(key, "not offered")
                    continue
                want = val(prop, **{k: e[k] for k in state})
                ctx.check(same(v, want), key, where(f), "%s instead of %s" % (short(v), short(want)))
                ctx.count("wrapper")
        with ctx.guard("Pyromat isentropic"):
            v, exc, f = method(M, o, "isentropic", e["p"], e["h"], e["p_2"])
            ctx.check(same(v, val("h", p=e["p_2"], s=val("s", p=e["p"], h=e["h"]))), "PyromatWrapper.isentropic, " + be, where(f), "%s" % short(v))
            ctx.count("wrapper")


def exergy(ctx, P):
    """Physical and chemical exergy of a stream."""
    for rule, table in (("ideal", IDEAL), ("incompressible", INCOMP)):
        M = mixture(P)
        with ctx.guard("physical exergy " + rule):
            v, exc, f = M.call(FUN, "calc_physical_exergy", sym("h"), sym("s"), sym("p"), sym("pamb"), sym("Tamb"), M.fd, rule)
            hp, sp = (M.spec(table[k], T=sym("Tamb")) for k in "hs")
            h0, s0 = (M.spec(table[k], T=sym("Tamb"), p=sym("pamb")) for k in "hs")
            T0 = sym("Tamb")
            th = sym("h") - hp - T0 * (sym("s") - sp)
            me = hp - h0 - T0 * (sp - s0)
            ctx.check(same(v[0], th), "thermal exergy, rule " + rule, where(f), "%s" % short(v[0]))
            ctx.check(same(v[1], me), "mechanical exergy, rule " + rule, where(f), "%s" % short(v[1]))
            ctx.count("functions", 2)
    M = FluidModel(P, [ZERO, ONE, ZERO])
    with ctx.guard("physical exergy pure"):
        v, exc, f = M.call(FUN, "calc_physical_exergy", sym("h"), sym("s"), sym("p"), sym("pamb"), sym("Tamb"), M.fd)
        th = M.spec("h - O2.h_pT(p, Tamb) - Tamb * (s - O2.s_pT(p, Tamb))")
        me = M.spec("O2.h_pT(p, Tamb) - O2.h_pT(pamb, Tamb) - Tamb * (O2.s_pT(p, Tamb) - O2.s_pT(pamb, Tamb))")
        ctx.check(same(v[0], th), "thermal exergy of a pure fluid", where(f), "%s" % short(v[0]))
        ctx.check(same(v[1], me), "mechanical exergy of a pure fluid", where(f), "%s" % short(v[1]))
    # chemical exergy; library entries: [.., .., liquid, gaseous, index of the standard state]
    def lib(M, idx=3):
        return M.I.new_dict(M.st, [(g, M.I.new_list(M.st, [sym("a0" + g), sym("a1" + g), sym("liq" + g), sym("gas" + g), num(idx)])) for g in FLUIDS])
    for idx, nm in ((2, "liq"), (3, "gas")):
        M = FluidModel(P, [ZERO, ZERO, ONE])
        with ctx.guard("chemical exergy pure"):
            v, exc, f = M.call(FUN, "calc_chemical_exergy", sym("pamb"), sym("Tamb"), M.fd, lib(M, idx))
            want = sym(nm + "H2O") / sym("H2O_molar_mass") * num(1000)
            ctx.check(same(v, want), "chemical exergy of a pure fluid, state %d" % idx, where(f), "%s" % short(v))
    for wet in (True, False):
        M = mixture(P)
        M.pos("Tamb < H2O._T_crit")
        pre = M.spec("H2O.p_sat(Tamb) < pamb * " + y("H2O"))
        M.I.axioms.update(literals(pre if wet else NOT(pre)))
        for f in FLUIDS:
            M.I.axioms.update(literals(NOT(M.spec(y(f) + " == 0"))))
        key = "chemical exergy of a gas mixture, " + ("condensing" if wet else "dry")
        with ctx.guard(key):
            env = {"R": num(0)}
            g = M.I.global_name(P.modules["tespy.tools.global_vars"], "gas_constants", M.st)
            env["R"] = M.I.dict_get(M.st, g, "uni")
            MM = "(" + mixsum("{y} * M_{f}", "") + ")"
            if wet:
                env.update(p=sym("pamb"), T=sym("Tamb"))
                env["yw"] = M.spec(y("H2O"))
                env["nl"] = M.spec(NL, **env)
                M.I.axioms.update(literals(M.spec("nl > 0", **env)))
                ys = {f: M.spec(y(f) + " / (1 - nl)", **env) for f in ("N2", "O2")}
                ys["H2O"] = M.spec("(yw - nl) / (1 - nl)", **env)
                for q in ys.values():
                    M.I.axioms.update(literals(NOT(M.spec("q == 0", q=q))))
            else:
                env["nl"] = ZERO
                ys = {f: M.spec(y(f)) for f in FLUIDS}
            dry = ZERO
            for f in FLUIDS:
                dry = dry + M.spec("q * g + Tamb * R / 1000 * q * math.log(q)", q=ys[f], g=sym("gas" + f), R=env["R"])
            want = M.spec("(nl * liq + dry * (1 - nl)) / " + MM + " * 1000", nl=env["nl"], liq=sym("liqH2O"), dry=dry)
            v, exc, f = M.call(FUN, "calc_chemical_exergy", sym("pamb"), sym("Tamb"), M.fd, lib(M), "ideal-cond")
            ctx.check(same(v, want), key, where(f), "%s" % short(v))
            ctx.count("functions")


def numeric(ctx, P):
    """_numeric_deriv: slope of the function, state restored."""
    H = "tespy.tools.helpers"
    w = "src/tespy/tools/helpers.py (_numeric_deriv)"
    f0 = P.modules[H]

    def setup():
        M = FluidModel(P, [ONE, ZERO, ZERO])
        st = M.st
        conn = new_obj("object", P.classes["Connection"], path="conn")
        for k in ("m", "p", "h"):
            d = M.I.instantiate(P.classes["FluidProperties"], [], {}, st, M.fr)
            st.heap[(d.oid, "a", "val_SI")] = sym(k)
            st.heap[(conn.oid, "a", k)] = d
        fl = M.I.instantiate(P.classes["FluidComposition"], [], {}, st, M.fr)
        st.heap[(conn.oid, "a", "fluid")] = fl
        val = M.I.new_dict(st, [("N2", sym("xN2")), ("O2", sym("xO2"))])
        st.heap[(fl.oid, "a", "val")] = val
        st.heap[(fl.oid, "a", "is_var")] = M.I.new_set(st, ["N2", "O2"])
        comp = new_obj("object", P.classes["Valve"], path="comp")
        zeta = M.I.instantiate(P.classes["ComponentProperties"], [], {"d": sym("step")}, st, M.fr)
        st.heap[(zeta.oid, "a", "val")] = sym("zeta")
        st.heap[(comp.oid, "a", "zeta")] = zeta
        built = []
        M.I.intrinsics["tespy.connections.connection.Connection.build_fluid_data"] = lambda I, a, k, s, fr, fv: s.heap.__setitem__(
            (val.oid, "built"), tuple(I.dict_get(s, val, q) for q in ("N2", "O2")))
        st.heap[(val.oid, "built")] = (sym("xN2"), sym("xO2"))

        def func(I, a, k, s, fr):
            def g(o, n):
                return s.heap.get((o.oid, "a", n))
            cells = [g(g(conn, q), "val_SI") for q in ("m", "p", "h")] + [g(zeta, "val")] + list(s.heap[(val.oid, "built")])
            def f(*xs):
                r = ZERO
                for i, x in enumerate(xs):
                    r = r + sym("g%d" % i) * x
                return r + sym("g01") * xs[0] * xs[1] + sym("k1")
            return apply(f, *cells)
        M.I.intrinsics["ext:func"] = func
        return M, conn, comp, zeta, val
    cases = [("m", True, 0), ("p", True, 1), ("h", True, 2), ("zeta", False, 3), ("N2", True, 4), ("O2", True, 5)]
    for dx, isconn, i in cases:
        key = "numerical derivative with respect to %s" % dx
        with ctx.guard(key):
            M, conn, comp, zeta, val = setup()
            v, exc, f = M.call(H, "_numeric_deriv", comp, M.I.ext("func"), dx, conn if isconn else None)
            want = sym("g%d" % i)
            if dx == "m":
                want = want + sym("g01") * sym("p")
            if dx == "p":
                want = want + sym("g01") * sym("m")
            st = M.after
            ctx.check(same(v, want), key, where(f), "%s instead of %s" % (short(v), short(want)))
            for k in ("m", "p", "h"):
                d = st.heap[(conn.oid, "a", k)]
                ctx.check(same(st.heap[(d.oid, "a", "val_SI")], sym(k)), key + " restores " + k, where(f), "%s" % short(st.heap[(d.oid, "a", "val_SI")]))
            ctx.check(same(st.heap[(zeta.oid, "a", "val")], sym("zeta")), key + " restores the component variable", where(f), "")
            for g in ("N2", "O2"):
                ctx.check(same(M.I.dict_get(st, val, g), sym("x" + g)), key + " restores " + g, where(f), "%s" % short(M.I.dict_get(st, val, g)))
            b = st.heap[(val.oid, "built")]
            ctx.check(same(b[0], sym("xN2")) and same(b[1], sym("xO2")) if isinstance(b, tuple) else None, key + " leaves consistent fluid data", where(f), "%s" % (b,))
            ctx.count("numeric")
    from fractions import Fraction as Fr
    for x in (Fr(0), Fr(1, 500000), Fr(3, 10), Fr(1) - Fr(1, 500000), Fr(1)):
        key = "numerical derivative at a mass fraction of %s" % float(x)
        with ctx.guard(key):
            M, conn, comp, zeta, val = setup()
            M.st.heap[(val.oid, "built")] = (num(x), sym("xO2"))
            M.I.setitem(val, "N2", num(x), M.st, M.fr)
            inner, used = M.I.intrinsics["ext:func"], []

            def func(I, a, k, s, fr):
                used.append(s.heap[(val.oid, "built")][0])
                return inner(I, a, k, s, fr)
            M.I.intrinsics["ext:func"] = func
            v, exc, f = M.call(H, "_numeric_deriv", comp, M.I.ext("func"), "N2", conn)
            ctx.check(same(v, sym("g4")) if not exc else False, key, where(f), "%s" % short(v))
            vals = [u.const_val() if isinstance(u, R) and u.is_const() else None for u in used]
            ctx.check(None if None in vals or not vals else all(0 <= u <= 1 for u in vals), key + " stays between zero and one", where(f), "%s" % (vals,))
            ctx.check(same(M.I.dict_get(M.after, val, "N2"), num(x)), key + " restores the mass fraction", where(f), "")
            ctx.count("numeric")
    with ctx.guard("unknown variable"):
        M, conn, comp, zeta, val = setup()
        v, exc, f = M.call(H, "_numeric_deriv", comp, M.I.ext("func"), "nonsense", conn)
        ctx.check(any(pc is True for pc, _ in exc), "numerical derivative with respect to an unknown variable is rejected", where(f), "")


def bus_newton(ctx, P):
    """The derivative of the bus value iteration belongs to its function."""
    H = "tespy.tools.helpers"
    M = FluidModel(P, [ONE, ZERO, ZERO])
    cf = new_obj("object", None, path="cf")
    M.st.heap[(cf.oid, "a", "evaluate")] = M.I.ext("cf.evaluate")
    # 1 / characteristic linear in its argument: the difference quotient is exact
    M.I.intrinsics["ext:cf.evaluate"] = lambda I, a, k, st, fr: apply(lambda q: ONE / (sym("a") + sym("b") * q), a[0])
    kw = dict(component_value=sym("cv"), char_func=cf, reference_value=sym("ref"), bus_value=sym("bv"))
    with ctx.guard("bus value"):
        v, exc, f = M.call(H, "bus_char_evaluation", **kw)
        want = sym("bv") - sym("cv") * (sym("a") + sym("b") * sym("bv") / sym("ref"))
        ctx.check(same(v, want), "bus_char_evaluation", where(f), "%s" % short(v))
        v, exc, f = M.call(H, "bus_char_derivative", **kw)
        want = ONE - sym("cv") * sym("b") / sym("ref")
        ctx.check(same(v, want), "bus_char_derivative", where(f), "%s instead of %s" % (short(v), short(want)))


def fluid_data(ctx, P):
    """Connections hand their own composition to the property functions."""
    M = FluidModel(P, [ONE, ZERO, ZERO])
    st = M.st
    conn = new_obj("object", P.classes["Connection"], path="conn")
    fl = M.I.instantiate(P.classes["FluidComposition"], [], {}, st, M.fr)
    st.heap[(conn.oid, "a", "fluid")] = fl
    st.heap[(fl.oid, "a", "val")] = M.I.new_dict(st, [(f, sym("x" + f)) for f in FLUIDS])
    st.heap[(fl.oid, "a", "wrapper")] = M.I.new_dict(st, [(f, M.w[f]) for f in reversed(FLUIDS)])
    with ctx.guard("build_fluid_data"):
        fr = Frame(P.modules[FUN], None, "<top>", None)
        fr.node = None
        f = M.I.getattr_(conn, "build_fluid_data", st, fr)
        M.I.call(f, [], {}, st, fr)
        fd = st.heap.get((conn.oid, "a", "fluid_data"))
        for g in FLUIDS:
            d = M.I.dict_get(st, fd, g)
            ctx.check(isinstance(d, Ref) and M.I.dict_get(st, d, "wrapper") is M.w[g], "fluid data: wrapper of " + g, where(f), "")
            ctx.check(isinstance(d, Ref) and same(M.I.dict_get(st, d, "mass_fraction"), sym("x" + g)), "fluid data: mass fraction of " + g, where(f), "")
