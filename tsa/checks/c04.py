"""Every parameter a user sets on a component imposes its documented
definition."""
import re

from .. import dd, mbhe
from ..common import program, models, where, spec, fnode
from ..interp import OBJS, num
from ..configs import configs
from ..model import undecided, Model
from ..poly import R, diff, ZERO, ONE, Blowup, map_atoms
from .c01 import short

EXPL = ("The residual of every optional parameter equation of every component class is value-numbered and compared, branch "
        "by branch, with the documented definition of the parameter (written in this file as an expression over the ports). "
        "Two residuals agree when they are proportional or when they imply the same value of the parameter.")

# ports: i, o first in/outlet; i1..i4, o1..o3 numbered.  T[c] v[c] Tsat[c]
# mu[c] x[c] m[c] p[c] h[c]; is[a,b]: isentropic outlet enthalpy from a to
# the pressure of b
MACRO = [
    (r"\bT\[(\w+)\]", r"T_mix_ph(\1.p.val_SI, \1.h.val_SI, \1.fluid_data, \1.mixing_rule)"),
    (r"\bv\[(\w+)\]", r"v_mix_ph(\1.p.val_SI, \1.h.val_SI, \1.fluid_data, \1.mixing_rule)"),
    (r"\bmu\[(\w+)\]", r"viscosity_mix_ph(\1.p.val_SI, \1.h.val_SI, \1.fluid_data, \1.mixing_rule)"),
    (r"\bs\[(\w+)\]", r"s_mix_ph(\1.p.val_SI, \1.h.val_SI, \1.fluid_data, \1.mixing_rule)"),
    (r"\bTsat\[(\w+)\]", r"T_sat_p(\1.p.val_SI, \1.fluid_data)"),
    (r"\bx\[(\w+)\]", r"Q_mix_ph(\1.p.val_SI, \1.h.val_SI, \1.fluid_data)"),
    (r"\bphase\[(\w+)\]", r"phase_mix_ph(\1.p.val_SI, \1.h.val_SI, \1.fluid_data)"),
    (r"\bis\[(\w+),\s*(\w+)\]", r"isentropic(\1.p.val_SI, \1.h.val_SI, \2.p.val_SI, \1.fluid_data, \1.mixing_rule)"),
    (r"\bm\[(\w+)\]", r"\1.m.val_SI"),
    (r"\bp\[(\w+)\]", r"\1.p.val_SI"),
    (r"\bh\[(\w+)\]", r"\1.h.val_SI"),
]


def expand(t):
    for a, b in MACRO:
        t = re.sub(a, b, t)
    return " ".join(t.split())


TDLOG = ("((({l}) - ({u})) / math.log(({l}) / ({u})) if ({u}) != ({l}) else ({l}))")
HXU, HXL = "(T[i1] - T[o2])", "(T[o1] - T[i2])"
CDU = "(Tsat[i1] - T[o2])"
FEAS = "T[i1] > T[o2] and T[o1] > T[i2]"
CFEAS = "Tsat[i1] > T[o2] and T[o1] > T[i2]"
FKA = ("(2 / (1 / self.kA_char1.char_func.evaluate(m[i1] / i1.m.design) + "
       "1 / self.kA_char2.char_func.evaluate(m[i2] / i2.m.design)))")
U1, U2 = "(T[i] - self.Tamb.val_SI)", "(T[o] - self.Tamb.val_SI)"
STD = ("(({u2} + {u1}) / 2 if {u1} / {u2} < 0 else (({u1} - {u2}) / math.log({u1} / {u2}) if {u1} > {u2} else "
       "({u2} - {u1}) / math.log({u2} / {u1})))").format(u1=U1, u2=U2)
ZETA = ("p[{i}] - p[{o}] if abs(m[{i}]) < 1e-4 else self.{z}.val - (p[{i}] - p[{o}]) * math.pi ** 2 / "
        "(8 * abs(m[{i}]) * m[{i}] * (v[{i}] + v[{o}]) / 2)")
ENG_X = "(1 if np.isnan(self.P.design) else self.P.val / self.P.design)"
WET = ("self.eta_s_dry.val * (1 - self.alpha.val * (1 - (x[i] + x[o]) / 2))")
MAPX = "np.sqrt(i.T.design / T[i])"
ETAC = "(h[o] - h[i]) * self.eta_s.val - (is[i,o] - h[i])"
ETAT = "(h[o] - h[i]) - (is[i,o] - h[i]) * self.eta_s.val"


def prs(n, start=1):
    d = {}
    for k in range(start, n + 1):
        d["pr%d" % k] = "p[i%d] * self.pr%d.val - p[o%d]" % (k, k, k)
        d["dp%d" % k] = "p[i%d] - p[o%d] - self.dp%d.val_SI" % (k, k, k)
        d["zeta%d" % k] = ZETA.format(i="i%d" % k, o="o%d" % k, z="zeta%d" % k)
    return d


SIMPLE = {"pr": "p[i] * self.pr.val - p[o]", "dp": "p[i] - p[o] - self.dp.val_SI",
          "zeta": ZETA.format(i="i", o="o", z="zeta")}
# class -> equation name -> (residual, optional restriction of the domain)
SPEC = {
    "Turbomachine": dict(SIMPLE, P="m[i] * (h[o] - h[i]) - self.P.val"),
    "Turbine": {
        "eta_s": ETAT,
        "eta_s_char": ETAT.replace("self.eta_s.val",
                                   "self.eta_s.design * self.eta_s_char.char_func.evaluate(m[i] / i.m.design)"),
        "cone": ("-m[i] + i.m.design * p[i] / i.p.design * (i.p.design * i.vol.design / (p[i] * v[i])) ** 0.5 * "
                 "abs((1 - (p[o] / p[i]) ** 2) / (1 - self.pr.design ** 2)) ** 0.5"),
    },
    "SteamTurbine": {
        "eta_s_dry_group": ("(h[o] - h[i]) / (is[i,o] - h[i]) - " + WET, "phase[i] == 'tp'"),
        "eta_s_dry_group ": ("(h[o] - h[i]) / (is[i,o] - h[i]) - self.eta_s_dry.val",
                             "not phase[i] == 'tp' and phase[o] == 'g'"),
    },
    "Compressor": {
        "eta_s": ETAC,
        "eta_s_char": ETAC.replace("self.eta_s.val",
                                   "self.eta_s.design * self.eta_s_char.char_func.evaluate(m[i] / i.m.design)"),
        "char_map_pr_group": (
            "p[o] / p[i] - self.pr.design * self.char_map_pr.char_func.evaluate_y("
            "m[i] * i.p.design / (i.m.design * p[i] * {x}), "
            "self.char_map_pr.char_func.evaluate_x({x})[0] * (1 - self.igva.val / 100), "
            "self.char_map_pr.char_func.evaluate_x({x})[1] * (1 - self.igva.val / 100))").format(x=MAPX),
        "char_map_eta_s_group": (
            "(is[i,o] - h[i]) / (h[o] - h[i]) - self.eta_s.design * self.char_map_eta_s.char_func.evaluate_y("
            "m[i] * i.p.design / (i.m.design * p[i] * {x}), "
            "self.char_map_eta_s.char_func.evaluate_x({x})[0] * (1 - self.igva.val / 100), "
            "self.char_map_eta_s.char_func.evaluate_x({x})[1] * (1 - self.igva.val ** 2 / 10000))").format(x=MAPX),
    },
    "Pump": {
        "eta_s": ETAC,
        "eta_s_char": ETAC.replace("self.eta_s.val",
                                   "self.eta_s.design * self.eta_s_char.char_func.evaluate(m[i] * v[i] / i.v.design)"),
        "flow_char": "p[o] - p[i] - self.flow_char.char_func.evaluate(m[i] * v[i])",
    },
    "HeatExchanger": dict(
        prs(2),
        Q="m[i1] * (h[o1] - h[i1]) - self.Q.val",
        kA=("m[i1] * (h[o1] - h[i1]) + self.kA.val * " + TDLOG.format(l=HXL, u=HXU), FEAS),
        kA_char=("m[i1] * (h[o1] - h[i1]) + self.kA.design * " + FKA + " * " + TDLOG.format(l=HXL, u=HXU), FEAS),
        ttd_u="self.ttd_u.val - " + HXU,
        ttd_l="self.ttd_l.val - " + HXL,
        ttd_min="self.ttd_min.val - (%s if %s < %s else %s)" % (HXU, HXU, HXL, HXL),
        eff_cold="self.eff_cold.val * (h_mix_pT(p[o2], T[i1], o2.fluid_data, o2.mixing_rule) - h[i2]) - (h[o2] - h[i2])",
        eff_hot="self.eff_hot.val * (h_mix_pT(p[o1], T[i2], o1.fluid_data, o1.mixing_rule) - h[i1]) - (h[o1] - h[i1])",
        eff_max=("self.eff_max.val - max((h[o2] - h[i2]) / (h_mix_pT(p[o2], T[i1], o2.fluid_data, o2.mixing_rule) - h[i2]), "
                 "(h[o1] - h[i1]) / (h_mix_pT(p[o1], T[i2], o1.fluid_data, o1.mixing_rule) - h[i1]))"),
    ),
    "Condenser": {
        "ttd_u": "self.ttd_u.val - " + CDU,
        "ttd_min": "self.ttd_min.val - (%s if %s < %s else %s)" % (CDU, CDU, HXL, HXL),
        "kA": ("m[i1] * (h[o1] - h[i1]) + self.kA.val * " + TDLOG.format(l=HXL, u=CDU), CFEAS),
        "kA_char": ("m[i1] * (h[o1] - h[i1]) + self.kA.design * " + FKA + " * " + TDLOG.format(l=HXL, u=CDU), CFEAS),
        "subcooling": "h[o1] - h_mix_pQ(p[o1], 0, o1.fluid_data)",
    },
    "SimpleHeatExchanger": dict(
        SIMPLE, Q="m[i] * (h[o] - h[i]) - self.Q.val",
        darcy_group=("p[i] - p[o] if abs(m[i]) < 1e-4 else p[i] - p[o] - 8 * abs(m[i]) * m[i] * (v[i] + v[o]) / 2 * "
                     "self.L.val * dff(4 * abs(m[i]) / (math.pi * self.D.val * (mu[i] + mu[o]) / 2), self.ks.val, "
                     "self.D.val) / (math.pi ** 2 * self.D.val ** 5)"),
        hw_group=("p[i] - p[o] if abs(m[i]) < 1e-4 else (p[i] - p[o]) * math.copysign(1, m[i]) - 10.67 * "
                  "abs(m[i]) ** 1.852 * self.L.val / (self.ks_HW.val ** 1.852 * self.D.val ** 4.871) * "
                  "(9.81 * ((v[i] + v[o]) / 2) ** 0.852)"),
        kA_group=("m[i] * (h[o] - h[i]) + self.kA.val * " + STD, U1 + " != " + U2),
        kA_char_group=("m[i] * (h[o] - h[i]) + self.kA.design * (2 / (1 + 1 / self.kA_char.char_func.evaluate("
                       "m[i] / i.m.design))) * " + STD, U1 + " != " + U2),
    ),
    "SolarCollector": {
        "energy_group": ("m[i] * (h[o] - h[i]) - self.A.val * (self.E.val * self.eta_opt.val - "
                         "((T[i] + T[o]) / 2 - self.Tamb.val_SI) * self.lkf_lin.val - "
                         "((T[i] + T[o]) / 2 - self.Tamb.val_SI) ** 2 * self.lkf_quad.val)"),
    },
    "ParabolicTrough": {
        "energy_group": ("m[i] * (h[o] - h[i]) - self.A.val * (self.E.val * self.eta_opt.val * self.doc.val ** 1.5 * "
                         "(1 - self.iam_1.val * abs(self.aoi.val) - self.iam_2.val * self.aoi.val ** 2) - "
                         "((T[i] + T[o]) / 2 - self.Tamb.val_SI) * self.c_1.val - "
                         "((T[i] + T[o]) / 2 - self.Tamb.val_SI) ** 2 * self.c_2.val)"),
    },
    "Valve": dict(SIMPLE, dp_char="p[i] - p[o] - self.dp_char.char_func.evaluate(m[i])"),
    "CombustionChamber": {
        "lamb": ("self.lamb.val - LAMB"), "ti": "self.ti.val - TI",
    },
    "DiabaticCombustionChamber": {
        "pr": "p[i] * self.pr.val - p[o]", "eta": "NETH + self.eta.val * TI",
    },
    "CombustionEngine": dict(
        prs(2),
        Q1="m[i1] * (h[o1] - h[i1]) + self.Q1.val",
        Q2="m[i2] * (h[o2] - h[i2]) + self.Q2.val",
        power_constraints="TI + self.tiP_char.char_func.evaluate(%s) * self.P.val" % ENG_X,
        heat1_constraints=("TI * self.Q1_char.char_func.evaluate({x}) - self.tiP_char.char_func.evaluate({x}) * "
                           "m[i1] * (h[o1] - h[i1])").format(x=ENG_X),
        heat2_constraints=("TI * self.Q2_char.char_func.evaluate({x}) - self.tiP_char.char_func.evaluate({x}) * "
                           "m[i2] * (h[o2] - h[i2])").format(x=ENG_X),
        heatloss_constraints=("TI * self.Qloss_char.char_func.evaluate({x}) + "
                              "self.tiP_char.char_func.evaluate({x}) * self.Qloss.val").format(x=ENG_X),
    ),
    "FuelCell": {
        "Q": "m[i1] * (h[o1] - h[i1]) + self.Q.val", "e": "self.P.val - m[i3] * self.e.val",
        "eta": "self.P.val - self.eta.val * m[i3] * E0(i3)",
        "pr": "p[i1] * self.pr.val - p[o1]", "dp": "p[i1] - p[o1] - self.dp.val_SI",
        "zeta": ZETA.format(i="i1", o="o1", z="zeta"),
    },
    "WaterElectrolyzer": {
        "Q": "m[i1] * (h[o1] - h[i1]) + self.Q.val", "e": "self.P.val - m[o3] * self.e.val",
        "eta": "self.P.val * self.eta.val + m[o3] * E0(o3)",
        "eta_char": ("self.P.val + m[o3] * E0(o3) / (self.eta.design * "
                     "self.eta_char.char_func.evaluate(m[o3] / o3.m.design))"),
        "pr": "p[i1] * self.pr.val - p[o1]", "dp": "p[i1] - p[o1] - self.dp.val_SI",
        "zeta": ZETA.format(i="i1", o="o1", z="zeta"),
    },
}
# reaction enthalpy of 2 H2 + O2 -> 2 H2O (liquid) per mass of hydrogen
FUELS = ("H2", "CH4", "ethane", "propane", "butane", "nDodecane")
E0 = r"(-286000 / \1.fluid.wrapper[self.h2]._molar_mass)"
# what a component contributes that is decided elsewhere or not expressible
ELSEWHERE = {"mass_flow_constraints", "energy_balance_constraints", "pressure_constraints"}
CHEXPR = {
    ("m", "rel"): "m[i] / i.m.design", ("m_out", "rel"): "m[o] / o.m.design",
    ("v", "rel"): "m[i] * v[i] / i.v.design", ("pr", "rel"): "p[o] / p[i] * i.p.design / o.p.design",
    ("m", "abs"): "m[i]", ("m_out", "abs"): "m[o]", ("v", "abs"): "m[i] * v[i]", ("pr", "abs"): "p[o] / p[i]",
}


def lookup(cls, name):
    out = []
    for c in cls.mro:
        for k in (name, name + " "):
            if k in SPEC.get(c.name, {}):
                s = SPEC[c.name][k]
                out.append(s if isinstance(s, tuple) else (s, None))
        if out:
            break
    return out


def fuel_terms(m, text):
    """Expands TI, LAMB, NETH over the fuels of the model."""
    if not re.search(r"\b(TI|LAMB|NETH)\b", text):
        return text
    eng = any(c.name == "CombustionEngine" for c in m.cls.mro)
    ins, out = (["i3", "i4"], "o3") if eng else (["i1", "i2"], "o1")
    fuels = [f for f in m.fluids if f in FUELS]
    from ..chem import STRUCTURE
    ti, nox = [], []
    for f in fuels:
        el = STRUCTURE[f]
        nc, nh = el.get("C", 0), el.get("H", 0)
        mw = "%s.fluid.wrapper[%r]._molar_mass" % (ins[0], f)
        ti.append("((%s - m[%s] * %s.fluid.val[%r]) * self.fuels[%r]['LHV'])" % (
            " + ".join("m[%s] * %s.fluid.val[%r]" % (i, i, f) for i in ins), out, out, f, f))
        nox.append("((%s) * %r / %s)" % (" + ".join("m[%s] * %s.fluid.val[%r]" % (i, i, f) for i in ins), nc + nh / 4, mw))
    ox = "((%s) / %s.fluid.wrapper[self.o2]._molar_mass)" % (
        " + ".join("m[%s] * %s.fluid.val[self.o2]" % (i, i) for i in ins), ins[0])
    neth = "(%s - m[%s] * (h[%s] - h_mix_pT(1e5, 298.15, %s.fluid_data, mixing_rule='forced-gas')))" % (
        " + ".join("m[%s] * (h[%s] - h_mix_pT(1e5, 298.15, %s.fluid_data, mixing_rule='forced-gas'))" % (i, i, i)
                   for i in ins), out, out, out)
    text = re.sub(r"\bTI\b", "(" + " + ".join(ti) + ")", text)
    text = re.sub(r"\bLAMB\b", "(%s / (%s))" % (ox, " + ".join(nox)), text)
    return re.sub(r"\bNETH\b", neth, text)


def ports(m):
    env = {"i": m.inl[0], "o": m.outl[0]} if m.inl and m.outl else {}
    for k, c in enumerate(m.inl):
        env["i%d" % (k + 1)] = c
    for k, c in enumerate(m.outl):
        env["o%d" % (k + 1)] = c
    env["dff"] = spec(m, "darcy_friction_factor", module="tespy.tools.fluid_properties.helpers")
    return env


def equivalent(a, b, pa=None):
    """Gated: residuals proportional, or implying the same parameter."""
    def leaf(x, y):
        if x is y:
            return True
        if undecided(x) or undecided(y):
            return "?"
        if not (isinstance(x, R) and isinstance(y, R)):
            return "?" if type(x) is type(y) else False
        if x == y:
            return True
        if x.is_zero() or y.is_zero():
            return False
        q = x / y
        if q.is_const():
            return True
        for at in (pa or ()):
            def imp(e):
                d = diff(e, lambda z: ONE if z is at else ZERO)
                if d.is_zero() or at in set(d.atoms()):
                    return None
                return e / d - R.of(at)
            u, v = imp(x), imp(y)
            if u is not None and v is not None and (u - v).is_zero():
                return True
        return False
    v = dd.apply(leaf, a, b)
    return v


def _deep(r):
    """atoms of an expression, arguments included"""
    seen, todo = [], [r]
    while todo:
        x = todo.pop()
        if not isinstance(x, R):
            continue
        for a in x.atoms():
            if a not in seen:
                seen.append(a)
                todo += [y for y in a.args if isinstance(y, R)]
    return seen


def wet_expansion(ctx, P):
    """Steam turbine with superheated inlet and wet outlet: dry efficiency down
    to the saturation line, from there on the efficiency of the wet part."""
    key = "SteamTurbine eta_s_dry_group (superheated inlet, wet outlet)"
    c = P.classes["SteamTurbine"]
    m = Model(P, c, **next(iter(configs(c)))[1])
    eq = [e for e in m.equations() if e[0] == "eta_s_dry_group"]
    if not eq:
        ctx.open(key, "no such equation")
        return
    f = eq[0][1]
    v, st, exc = m.run(f, [], eq[0][3])
    env = ports(m)
    from .c13 import literals
    a = {}
    for t in ("phase[i] == 'tp'", "phase[o] == 'tp'", "phase[i] == 'g'", "phase[o] == 'g'"):
        l = spec(m, expand(t), env)
        yes = t in ("phase[o] == 'tp'", "phase[i] == 'g'")
        a.update(literals(l if yes else dd.NOT(l)))
    r = dd.restrict(dd.restrict(v, st.assume), a)
    for leaf in sorted({l for _, l in dd.leaves(r)}, key=str):
        _wet_part(ctx, m, env, f, key, leaf)
    ctx.count("wet expansion")


def _wet_part(ctx, m, env, f, key, r):
    if not isinstance(r, R) or undecided(r):
        ctx.open(key, "value %s" % short(r))
        return
    roots = [x for x in _deep(r) if x.kind == "fn" and x.args[0] == "root"]
    sat = {x.args[1] for x in r.atoms() if x.kind == "fn" and x.args[0] == "h_mix_pQ"}
    if not roots and not sat and not [x for x in _deep(r) if "sat" in str(x.args[0])]:
        # no saturation state at all enters the relation
        ctx.violate(key, where(f), "the expansion is not divided at the saturation line: %s" % short(r))
        return
    if len(roots) != 1 or len(sat) != 1:
        ctx.open(key, "%d root searches, %d saturation states" % (len(roots), len(sat)))
        return
    root, psat = roots[0], sat.pop()
    body, lo, hi = root.args[1:4]
    env = dict(env, psat=psat)
    want = spec(m, expand(
        "h[o] - (h_mix_pQ(psat, 1, i.fluid_data) - self.eta_s_dry.val * (1 - self.alpha.val * (1 - (1 + x[o]) / 2)) * "
        "(h_mix_pQ(psat, 1, i.fluid_data) - isentropic(psat, h_mix_pQ(psat, 1, i.fluid_data), p[o], i.fluid_data, i.mixing_rule)))"), env)
    ctx.check((r - want).is_zero() or (r + want).is_zero(), key, where(f), "residual %s" % short(r))
    inner = {x.args[1] for x in body.atoms() if x.kind == "fn" and x.args[0] == "h_mix_pQ"}
    k2 = key + ": saturation pressure"
    if len(inner) != 1:
        ctx.open(k2, "%d saturation states" % len(inner))
        return
    pb = inner.pop()

    def at(x):
        return map_atoms(pb, lambda q: x if q.kind == "sym" and q.args[0] == "#bound" else R.of(q))
    want = spec(m, expand("h[i] - self.eta_s_dry.val * (h[i] - isentropic(p[i], h[i], pb, i.fluid_data, i.mixing_rule)) - "
                          "h_mix_pQ(pb, 1, i.fluid_data)"), dict(env, pb=pb))
    ctx.check(((body - want).is_zero() or (body + want).is_zero()) and (at(R.of(root)) - psat).is_zero(), k2, where(f),
              "condition %s for %s" % (short(body), short(psat)))
    ends = [at(lo), at(hi)]
    pi, po = spec(m, expand("p[i]"), env), spec(m, expand("p[o]"), env)

    def share(x):
        q = (x - po) / (pi - po)
        return float(q.const_val()) if q.is_const() else None
    q = sorted((share(x) for x in ends), key=lambda z: (z is None, z))
    ctx.check(None if None in q else q[0] < 1e-3 and q[1] > 1 - 1e-3, key + ": searched range", where(f),
              "from %s to %s of the pressure drop" % tuple(q))


def strict_model(P, c):
    """model which keeps equality apart from both strict comparisons"""
    m = Model(P, c, **next(iter(configs(c)))[1])
    m.I.STRICT = True
    env = ports(m)
    from .c13 import literals
    a = {}
    for t in ("{u1} > {u2}", "{u1} < {u2}", "{u1} / {u2} < 0"):
        a.update(literals(dd.NOT(spec(m, expand(t.format(u1=U1, u2=U2)), env))))
    return m, env, a


def equal_differences(ctx, P):
    """Equal temperature differences to the ambience at inlet and outlet: the
    mean difference is this difference."""
    for c in P.subclasses("SimpleHeatExchanger"):
        m, env, a = strict_model(P, c)
        for e in m.equations():
            kA = {"kA_group": "self.kA.val", "kA_char_group": "self.kA.design * (2 / (1 + 1 / self.kA_char.char_func.evaluate("
                  "m[i] / i.m.design)))"}.get(e[0])
            if kA is None:
                continue
            key = "%s.%s with equal temperature differences" % (c.name, e[0])
            v, st, exc = m.run(e[1], [], e[3])
            r = dd.restrict(dd.restrict(v, st.assume), a)
            want = [spec(m, expand("m[i] * (h[o] - h[i]) + %s * %s" % (kA, u)), env) for u in (U1, U2)]
            if not isinstance(r, R):
                ctx.open(key, "value %s" % short(r))
                continue
            ctx.check(None if undecided(r) else any((r - w).is_zero() or (r + w).is_zero() for w in want), key, where(e[1]), "residual %s" % short(r))


def run(ctx):
    ctx.rule = "residual of the parameter equation == documented definition (up to equivalence), per branch"
    P = program()
    seen = 0
    for c, tag, m in models(ctx, P, thorough=ctx.tier == "thorough"):
        env = ports(m)
        for name, func, deriv, kw, ne, const, kind in m.equations():
            sp = lookup(c, name)
            key0 = "%s.%s%s" % (c.name, name, " [%s]" % tag if tag else "")
            if not sp:
                if kind == "parameter" and not (c.name == "MovingBoundaryHeatExchanger" and name in ("UA", "td_pinch")):
                    ctx.open(key0, "no written definition")
                continue
            for text, dom in sp:
                key = key0 + (" (%s)" % dom if dom else "")
                with ctx.guard(key):
                    v, st, exc = m.run(func, [], kw)
                    v = dd.restrict(v, st.assume)
                    text = re.sub(r"\bE0\((\w+)\)", E0, text)
                    text = expand(fuel_terms(m, text))
                    w = spec(m, text, env)
                    g = spec(m, expand(dom), env) if dom else True
                    pa = []
                    for pn in re.findall(r"self\.(\w+)\.val(?:_SI)?\b", text):
                        a = spec(m, re.search(r"self\.%s\.val(?:_SI)?\b" % pn, text).group(0), env)
                        if isinstance(a, R) and a.as_atom() is not None:
                            pa.append(a.as_atom())
                    r = equivalent(v, w, pa)
                    r = dd.apply(lambda q, e: e if q is True else ("?" if q not in (True, False) else True), g, r)
                    ls = {l for _, l in dd.leaves(r)}
                    seen += 1
                    if False in ls:
                        ctx.violate(key, where(func), "residual %s, documented definition gives %s" % (short(v), short(w)))
                    elif "?" in ls:
                        ctx.open(key, "residual %s" % short(v))
                    else:
                        ctx.ok(key)
    mbhe.obligations(ctx, True)
    with ctx.guard("expansion into the wet region"):
        wet_expansion(ctx, P)
    with ctx.guard("equal temperature differences"):
        equal_differences(ctx, P)
    # the expressions characteristics are looked up with
    for c in [x for x in P.subclasses("Component") if x.name == "Valve"]:
        from ..model import Model
        m = Model(P, c)
        env = ports(m)
        for (par, typ), text in CHEXPR.items():
            key = "characteristic expression %s (%s)" % (par, typ)
            with ctx.guard(key):
                f = m.meth(m.self, "get_char_expr")
                v, st, exc = m.run(f, [par], {"type": typ})
                r = equivalent(dd.restrict(v, st.assume), spec(m, expand(text), env))
                ls = {l for _, l in dd.leaves(r)}
                ctx.check(False not in ls and (None if "?" in ls else True), key, where(f),
                          "is %s, defined as %s" % (short(v), text))
    # ... and at the ports the user selects
    for c in [x for x in P.subclasses("Component") if x.name == "HeatExchanger"]:
        m = Model(P, c)
        env = ports(m)
        for (par, typ), text in CHEXPR.items():
            text = re.sub(r"\bi\b", "i2", re.sub(r"\bo\b", "o2", text))
            key = "characteristic expression %s (%s) at selected ports" % (par, typ)
            with ctx.guard(key):
                f = m.meth(m.self, "get_char_expr")
                v, st, exc = m.run(f, [par], {"type": typ, "inconn": num(1), "outconn": num(1)})
                r = equivalent(dd.restrict(v, st.assume), spec(m, expand(text), env))
                ls = {l for _, l in dd.leaves(r)}
                ctx.check(False not in ls and (None if "?" in ls else True), key, where(f),
                          "is %s, defined as %s" % (short(v), text))
    ctx.count("parameter equations", seen)
    ctx.floor("parameter equations", seen, 90)
    return EXPL
