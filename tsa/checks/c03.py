"""Mandatory constraints imply the conservation laws."""
from .. import dd
from ..configs import shared
from ..common import program, models, where, spec, same
from ..chem import STRUCTURE
from ..jac import residual_rows
from ..interp import MISSING, sym, num, OBJS
from ..model import undecided
from ..poly import R, map_atoms, diff, ZERO, ONE, Blowup
from .c01 import short

EXPL = ("The residuals of the mandatory constraints of every component class are value-numbered; each row is solved for "
        "one state variable in which it is linear (variables a branch shares are already identified), the result is "
        "substituted, and the conservation statement must reduce to the zero polynomial. Reaction components: element "
        "balances as linear combinations of the species rows.")

MASS_EXEMPT = {"Source", "Sink", "CycleCloser", "Component", "NodeBase", "Turbomachine"}
ADIABATIC = {"HeatExchanger", "Merge", "Splitter", "Drum", "DropletSeparator", "Valve",
             "SubsystemInterface", "CycleCloser"}
EQUAL_P = {"Merge": "all", "Splitter": "all", "Separator": "all", "Drum": "all", "DropletSeparator": "all",
           "SubsystemInterface": "channel", "CycleCloser": "channel"}


def flux(m, expr, conns=None, sign=1):
    """sum over inlets minus sum over outlets of expr(c)"""
    s = num(0)
    ins = [c for c in m.inl if conns is None or c in conns]
    outs = [c for c in m.outl if conns is None or c in conns]
    for c in ins:
        s = m.I.binop(__import__("ast").Add(), s, spec(m, expr, {"c": c}), m.st, m.fr)
    for c in outs:
        s = m.I.binop(__import__("ast").Sub(), s, spec(m, expr, {"c": c}), m.st, m.fr)
    return s


def state_atoms(m):
    out = {}
    for va, (vn, isvar, col, owner) in m.vars.items():
        if not vn.startswith("self."):
            out[va] = vn
    return out


def eliminate(m, rows, exprs):
    """Solve each row for one variable it is linear in; substitute.  Returns
    the reduced expressions or None when a row is not usable."""
    atoms = state_atoms(m)
    order = sorted(atoms, key=lambda a: (0 if ".fluid[" in atoms[a] else 1 if atoms[a].endswith(".p") else 2 if atoms[a].endswith(".h") else 3, atoms[a]))
    rows = [r for r in rows if isinstance(r, R)]
    done = set()
    pend = list(rows)
    while pend:
        r = pend.pop(0)
        if r.is_zero():
            continue
        pick = None
        for a in order:
            if a in done or a not in set(r.atoms()):
                continue
            d = diff(r, lambda x: ONE if x is a else ZERO)
            if d.is_zero() or a in set(d.atoms()):
                continue
            if hidden(r, a):
                continue
            # prefer a coefficient that cannot vanish
            pick = (a, d) if pick is None or d.is_const() and not pick[1].is_const() else pick
            if d.is_const():
                break
        if pick is None:
            for a in sorted(set(r.atoms()), key=str):
                if a.kind == "fn" and a not in done and not hidden(r, a):
                    d = diff(r, lambda x: ONE if x is a else ZERO)
                    if not d.is_zero() and a not in set(d.atoms()):
                        pick = (a, d)
                        break
        if pick is None:
            continue
        a, d = pick
        val = (R.of(a) * d - r) / d
        done.add(a)
        sub = lambda x: map_atoms(x, lambda b: val if b is a else None)
        pend = [sub(x) for x in pend]
        exprs = [sub(x) for x in exprs]
    return exprs


def hidden(r, a):
    """does an opaque atom of r depend on a?"""
    def dep(x):
        if isinstance(x, R):
            return any(b is a or dep2(b) for b in x.atoms())
        if isinstance(x, tuple):
            return any(dep(y) for y in x)
        return False

    def dep2(b):
        return any(dep(x) for x in b.args)
    return any(b is not a and dep2(b) for b in r.atoms())


def rows_of(m, mandatory=True, names=None):
    out = []
    for eq in m.equations():
        if mandatory and eq[6] == "parameter":
            continue
        if names and eq[0] not in names:
            continue
        v, st, exc = m.run(eq[1], [], eq[3])
        rr = residual_rows(m, v, st)
        if rr is None:
            return None
        n = eq[4]
        if isinstance(n, R) and n.is_const() and int(n.const_val()) < len(rr):
            rr = rr[:int(n.const_val())]
        out += [(eq, r) for r in rr]
    return out


def holds(ctx, m, key, w, rows, expr, what):
    rs = [r for _, r in rows]
    if any(isinstance(r, dd.DD) for r in rs):
        gated = [r for r in rs if isinstance(r, dd.DD)]
        # rows that are gated on the mass flow being almost zero etc. are not needed for the balances
        rs = [r for r in rs if not isinstance(r, dd.DD)]
    if not isinstance(expr, R) or undecided(expr):
        ctx.open(key, "statement not modelled")
        return
    try:
        red = eliminate(m, rs, [expr])[0]
    except Blowup:
        ctx.open(key, "too large")
        return
    if undecided(red):
        ctx.open(key, "not modelled")
        return
    ctx.count("conservation statements")
    ctx.check(red.is_zero(), key, w, "%s does not follow from the component's equations: %s remains" % (what, short(red)))


def run(ctx):
    ctx.rule = "conservation statement in the ideal of the mandatory residual rows (after identifying branch variables)"
    P = program()
    for c, tag, m in models(ctx, P, thorough=ctx.tier == "thorough", more=(shared,)):
        with ctx.guard("%s [%s]" % (c.name, tag)):
            one(ctx, m, c, tag)
    lhv(ctx, P)
    ctx.floor("conservation statements", ctx.counts.get("conservation statements", 0), 120)
    ctx.assumptions = ["the mass flow and composition of connections in one branch are the same variables (C11)",
                       "the residuals vanish at the reported solution (the solver's convergence criterion, C10)"]
    return EXPL


def names(c):
    return [k.name for k in c.mro if not isinstance(k, str)]


def one(ctx, m, c, tag):
    sfx = " [%s]" % tag if tag else ""
    ns = names(c)
    rows = rows_of(m)
    cls = c.name
    w = "%s (class %s)" % (c.module.rel, cls)
    if rows is None:
        ctx.open(cls + sfx, "rows of unknown shape")
        return
    # --- mass
    reaction = set(ns) & {"CombustionChamber", "FuelCell", "WaterElectrolyzer"}
    fixed = "m variable" in tag and "False" in tag
    known = "known" in tag
    if cls not in MASS_EXEMPT and m.inl and m.outl:
        if not fixed and not (known and "Merge" in ns):
            holds(ctx, m, cls + " mass balance" + sfx, w, rows, flux(m, "c.m.val_SI"), "the mass balance over all connections")
    # --- energy of adiabatic components without work
    if set(ns) & ADIABATIC and cls not in ("Component",) and not (known and "Merge" in ns):
        # (composition known: the total mass balance is the sum of the species rows)
        holds(ctx, m, cls + " energy balance" + sfx, w, rows,
              flux(m, "c.m.val_SI * c.h.val_SI") if "CycleCloser" not in ns else spec(m, "a.h.val_SI - b.h.val_SI", {"a": m.inl[0], "b": m.outl[0]}),
              "the energy balance over all connections")
    if known and "Merge" in ns:
        # species balances with fractions that add up to one give the total balance
        x0, fl = None, m.fluids
        for nm, e in (("mass", "c.m.val_SI"), ("energy", "c.m.val_SI * c.h.val_SI")):
            expr = flux(m, e)
            sub = close_fractions(m)
            rs = [(q, sub(r)) for q, r in rows]
            holds(ctx, m, "%s %s balance%s" % (cls, nm, sfx), w, rs, sub(expr), "the %s balance over all connections" % nm)
    # --- pressure
    kind = next((EQUAL_P[n] for n in ns if n in EQUAL_P), None)
    if kind == "all":
        cs = m.inl + m.outl
        for i, x in enumerate(cs[1:]):
            holds(ctx, m, "%s equal pressure %d%s" % (cls, i + 1, sfx), w, rows,
                  spec(m, "a.p.val_SI - b.p.val_SI", {"a": cs[0], "b": x}), "equality of the pressure at all ports")
    elif kind == "channel":
        for i, (a, b) in enumerate(zip(m.inl, m.outl)):
            holds(ctx, m, "%s equal pressure channel %d%s" % (cls, i + 1, sfx), w, rows,
                  spec(m, "a.p.val_SI - b.p.val_SI", {"a": a, "b": b}), "equality of inlet and outlet pressure")
            holds(ctx, m, "%s equal enthalpy channel %d%s" % (cls, i + 1, sfx), w, rows,
                  spec(m, "a.h.val_SI - b.h.val_SI", {"a": a, "b": b}), "equality of inlet and outlet enthalpy")
    if "Splitter" in ns:
        for i, x in enumerate(m.outl):
            holds(ctx, m, "%s equal enthalpy %d%s" % (cls, i + 1, sfx), w, rows,
                  spec(m, "a.h.val_SI - b.h.val_SI", {"a": m.inl[0], "b": x}), "equal enthalpy of all outlets")
    if "DropletSeparator" in ns:
        for i, q in ((0, 0), (1, 1)):
            holds(ctx, m, "%s outlet %d saturated%s" % (cls, i + 1, sfx), w, rows,
                  spec(m, "o.h.val_SI - h_mix_pQ(o.p.val_SI, %d, o.fluid_data)" % q, {"o": m.outl[i]}),
                  "outlet %d is saturated %s" % (i + 1, "vapour" if q else "liquid"))
    if "Separator" in ns:
        for i, o in enumerate(m.outl):
            t = "T_mix_ph(%s.p.val_SI, %s.h.val_SI, %s.fluid_data, %s.mixing_rule)"
            holds(ctx, m, "%s temperature %d%s" % (cls, i + 1, sfx), w,
                  [(q, r) for q, r in rows if "pressure" not in q[0]],
                  spec(m, t % (("a",) * 4) + "-" + t % (("b",) * 4), {"a": m.inl[0], "b": o}),
                  "equal temperature at inlet and outlet")
    if "Desuperheater" in ns:
        holds(ctx, m, "%s hot outlet saturated%s" % (cls, sfx), w, rows,
              spec(m, "o.h.val_SI - h_mix_pQ(o.p.val_SI, 1, o.fluid_data)", {"o": m.outl[0]}), "saturated vapour at the hot side outlet")
    # --- species
    if set(ns) & {"Merge", "Separator"}:
        fls = m.fluids if not known else m.fluids[:1]
        for f in fls:
            holds(ctx, m, "%s balance of %s%s" % (cls, f, sfx), w, rows,
                  flux(m, "c.m.val_SI * c.fluid.val['%s']" % f), "the mass balance of species %s" % f)
    if "CombustionChamber" in ns:
        combustion(ctx, m, c, sfx, rows, w)
    if "FuelCell" in ns and not fixed:
        cell(ctx, m, c, sfx, rows, w, gases=(("O2", m.inl[1], 1), ("H2", m.inl[2], 1), ("H2O", m.outl[1], -1)), sign=1)
    if "WaterElectrolyzer" in ns and not fixed:
        cell(ctx, m, c, sfx, rows, w, gases=(("H2O", m.inl[1], 1), ("O2", m.outl[1], -1), ("H2", m.outl[2], -1)), sign=-1)


def close_fractions(m):
    """sum of mass fractions = 1 on every connection"""
    last = {}
    for c in m.inl + m.outl:
        fp = OBJS[m.attr(c, "fluid").oid].path
        v = num(1)
        for f in m.fluids[:-1]:
            v = v - m.xsym(fp, f)
        last[m.xsym(fp, m.fluids[-1]).as_atom()] = v
    return lambda r: map_atoms(r, lambda a: last.get(a)) if isinstance(r, R) else r


def element_masses(r):
    def f(a):
        s = str(a)
        if s.startswith("wrapper[") and s.endswith("]._molar_mass"):
            fl = s[8:s.index("]")]
            if fl in STRUCTURE:
                t = num(0)
                for el, n in STRUCTURE[fl].items():
                    t = t + num(n) * sym("mass(%s)" % el)
                return t
        return None
    return dd.apply(lambda x: map_atoms(x, f) if isinstance(x, R) else x, r)


def cell(ctx, m, c, sfx, rows, w, gases, sign):
    rs = [(q, element_masses(r)) for q, r in rows if q[0].startswith("mass")]
    for el in ("H", "O"):
        e = num(0)
        for f, conn, s in gases:
            n = STRUCTURE[f].get(el, 0)
            M = num(0)
            for k, v in STRUCTURE[f].items():
                M = M + num(v) * sym("mass(%s)" % k)
            e = e + num(s * n) * m.attr(m.attr(conn, "m"), "val_SI") / M
        holds(ctx, m, "%s balance of element %s%s" % (c.name, el, sfx), w, rs, e, "conservation of element %s" % el)
    for i, (f, conn, s) in enumerate(gases[1:]):
        holds(ctx, m, "%s equal pressure %s%s" % (c.name, f, sfx), w, rows,
              spec(m, "a.p.val_SI - b.p.val_SI", {"a": gases[0][1], "b": conn}), "equal pressure of the reactants and products")
    # energy: P + sum of enthalpy flows relative to the reference state + reaction enthalpy
    href = "h_mix_pT(1e5, 298.15, %s.fluid_data, %s.mixing_rule)"
    env = {"i": m.inl[0], "o": m.outl[0]}
    txt = "self.P.val - i.m.val_SI * 0"
    e = spec(m, "i.m.val_SI * (i.h.val_SI - o.h.val_SI)", env)
    for f, conn, s in gases:
        h = spec(m, "c.m.val_SI * (c.h.val_SI - %s)" % (href % ("c", "c")), {"c": conn})
        e = e + h if s > 0 else e - h
    h2 = next(conn for f, conn, s in gases if f == "H2")
    e0 = m.attr(m.self, "e0")
    mh2 = m.attr(m.attr(h2, "m"), "val_SI")
    e = e - num(sign) * mh2 * e0 if sign > 0 else e - mh2 * e0
    p = m.attr(m.param("P"), "val")
    e = e + p if sign < 0 else e - p
    rr = [(q, r) for q, r in rows if q[0].startswith("energy")]
    if len(rr) == 1 and isinstance(rr[0][1], R):
        ctx.count("conservation statements")
        ctx.check(same(rr[0][1], e, factor=True), c.name + " energy balance" + sfx, w,
                  "energy balance is %s, expected %s" % (short(rr[0][1]), short(e)))
    else:
        ctx.open(c.name + " energy balance" + sfx, "not modelled")


def combustion(ctx, m, c, sfx, rows, w):
    ins = m.inl[-2:] if c.name == "CombustionEngine" or "CombustionEngine" in names(c) else m.inl[:2]
    out = m.outl[-1:] if "CombustionEngine" in names(c) else m.outl[:1]
    st_rows = [(q, r) for q, r in rows if q[0].startswith("stoich")]
    order = m.items(m.attr(m.self, "fluid_eqs_list"))
    import ast
    if not order or len(order) != len(st_rows):
        ctx.open(c.name + " species rows" + sfx, "order of the species rows unknown")
        return
    # lambda is what its own equation / assignment says
    lam = m.run(m.meth(m.self, "calc_lambda"), [], {})[0]
    la = m.attr(m.param("lamb"), "val").as_atom()
    fix = lambda v: dd.apply(lambda x, l: map_atoms(x, lambda a: l if a is la else None) if isinstance(x, R) and isinstance(l, R) else x, v, lam)
    byf = {f: fix(r) for f, (q, r) in zip(order, st_rows)}
    nin = len(m.fluids)
    for el in ("C", "H", "O", "N"):
        tot = num(0)
        bal = num(0)
        for f in m.fluids:
            n = STRUCTURE[f].get(el, 0)
            if not n or f not in byf:
                continue
            M = sym_mass(m, f)
            tot = m.I.binop(ast.Add(), tot, m.I.binop(ast.Div(), m.I.binop(ast.Mult(), num(n), byf[f], m.st, m.fr), M, m.st, m.fr), m.st, m.fr)
            bal = bal + num(n) * flux(m, "c.m.val_SI * c.fluid.val['%s']" % f, conns=ins + out) / M
        ctx.count("conservation statements")
        ctx.check(same(tot, bal), "%s balance of element %s%s" % (c.name, el, sfx), w,
                  "the species equations do not conserve element %s: they add up to %s, atoms entering minus leaving are %s" % (el, short(tot), short(bal)))
    excess_air(ctx, m, c, sfx, w)
    # energy
    rr = [(q, r) for q, r in rows if q[0].startswith("energy")]
    if rr:
        e = num(0)
        for i in ins:
            e = e + spec(m, "c.m.val_SI * (c.h.val_SI - h_mix_pT(1e5, 298.15, c.fluid_data, 'forced-gas'))", {"c": i})
        for o in out:
            e = e - spec(m, "c.m.val_SI * (c.h.val_SI - h_mix_pT(1e5, 298.15, c.fluid_data, 'forced-gas'))", {"c": o})
        ti = m.run(m.meth(m.self, "calc_ti"), [], {})[0]
        e = m.I.binop(ast.Add(), e, ti, m.st, m.fr)
        if "CombustionEngine" in names(c):
            for k in (0, 1):
                e = m.I.binop(ast.Add(), e, spec(m, "i.m.val_SI * (i.h.val_SI - o.h.val_SI)", {"i": m.inl[k], "o": m.outl[k]}), m.st, m.fr)
            e = m.I.binop(ast.Add(), e, m.attr(m.param("P"), "val"), m.st, m.fr)
            e = m.I.binop(ast.Add(), e, m.attr(m.param("Qloss"), "val"), m.st, m.fr)
        ctx.count("conservation statements")
        ctx.check(same(rr[0][1], e, factor=True), c.name + " energy balance" + sfx, w,
                  "energy balance is %s, expected %s" % (short(rr[0][1]), short(e)))
        # thermal input is fuel converted times lower heating value
        t = num(0)
        fuels = m.items(m.attr(m.self, "fuel_list"))
        for f in fuels or []:
            l = spec(m, "self.fuels['%s']['LHV']" % f)
            t = m.I.binop(ast.Add(), t, m.I.binop(ast.Mult(), flux(m, "c.m.val_SI * c.fluid.val['%s']" % f, conns=ins + out), l, m.st, m.fr), m.st, m.fr)
        ctx.check(same(ti, t), c.name + " thermal input" + sfx, w, "thermal input is %s, expected %s" % (short(ti), short(t)))
    pr = [(q, r) for q, r in rows if "pressure" in q[0]]
    if pr:
        for i in ins:
            holds(ctx, m, "%s equal pressure %s%s" % (c.name, OBJS[i.oid].path, sfx), w, rows,
                  spec(m, "a.p.val_SI - b.p.val_SI", {"a": i, "b": out[0]}), "equality of reactant and flue gas pressure")


def excess_air(ctx, m, c, sfx, w):
    """an air ratio that is not specified is the one of the streams, a
    specified one stays"""
    d = m.param("lamb")
    eqs = [q for q in m.equations() if q[0].startswith("stoich")]
    save = m.attr(d, "val"), m.attr(d, "is_set")
    try:
        m.setv(d, "is_set", False)
        got = []
        for v in (num(5), num("1/2")):
            m.setv(d, "val", v)
            got.append([residual_rows(m, *m.run(q[1], [], q[3])[:2]) for q in eqs])
        ok = None
        if all(r is not None for g in got for r in g):
            ok = all(x is y or same(x, y) is True for r, s in zip(*got) for x, y in zip(r, s))
        ctx.check(ok, c.name + " free air ratio" + sfx, w, "the species equations depend on a value left over in lamb although lamb is not specified")
        m.setv(d, "is_set", True)
        m.setv(d, "val", save[0])
        for q in eqs:
            _, st, _ = m.run(q[1], [], q[3])
            v = dd.restrict(m.I.getattr_(d, "val", st, m.fr), st.assume)
            ctx.check(same(v, save[0]), c.name + " specified air ratio" + sfx, w, "the evaluation of the equations changes the specified lamb to %s" % short(v))
    finally:
        m.setv(d, "val", save[0])
        m.setv(d, "is_set", save[1])


def sym_mass(m, f):
    return spec(m, "self.inl[0].fluid.wrapper['%s']._molar_mass" % f)


LHV = {  # J/mol, lower heating values at 25 C (literature)
    "H2": 241.8e3, "CH4": 802.6e3, "ethane": 1428.6e3, "propane": 2043.1e3,
    "butane": 2657.3e3, "nDodecane": 7576e3,
}


def lhv(ctx, P):
    """heating value of every fuel the class accepts: literature within 0.2 %"""
    from ..model import Model
    for f, ref in LHV.items():
        key = "CombustionChamber heating value of " + f
        with ctx.guard(key):
            m = Model(P, P.classes["CombustionChamber"], fluids=("O2", "CO2", "H2O", "N2", f))
            v = spec(m, "self.fuels['%s']['LHV'] * self.inl[0].fluid.wrapper['%s']._molar_mass" % (f, f))
            if not isinstance(v, R) or not v.is_const():
                ctx.open(key, "not a number: %s" % short(v))
                continue
            ctx.count("heating values")
            ctx.check(abs(float(v.const_val()) / ref - 1) < 0.002, key, "src/tespy/components/combustion/base.py (CombustionChamber.calc_lhv)",
                      "heating value of %s is %.6g J/mol, literature %.6g" % (f, float(v.const_val()), ref))
    for cls, conn, sg in (("FuelCell", "self.inl[2]", -1), ("WaterElectrolyzer", "self.outl[2]", 1)):
        key = cls + " reaction enthalpy"
        with ctx.guard(key):
            m = Model(P, P.classes[cls])
            v = spec(m, "self.e0 * %s.fluid.wrapper['H2']._molar_mass" % conn)
            if not isinstance(v, R) or not v.is_const():
                ctx.open(key, "not a number: %s" % short(v))
                continue
            ctx.count("heating values")
            ctx.check(abs(float(v.const_val()) / (sg * 285.83e3) - 1) < 0.002, key, "src/tespy/components/reactors (%s.calc_e0)" % cls,
                      "reaction enthalpy per mole H2 is %.6g J/mol" % float(v.const_val()))
