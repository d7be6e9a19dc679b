"""Component equations: every derivative entry equals the derivative of the
residual it belongs to."""
from .. import dd
from ..common import program, models, where, fnode
from ..jac import analyse, compare
from ..interp import MISSING
from ..poly import R
from ..report import table
from ..configs import shared, chars

EXPL = ("For every component class and configuration the residual routine and the derivative routine "
        "of every mandatory constraint and every optional parameter equation are analysed by gated value "
        "numbering over the class's own source (all callees inlined, property functions uninterpreted); the "
        "derivative of the residual is formed on the value graph and compared, as rational functions, with "
        "the entries the derivative routine stores - per row, per variable, and per gate condition.")


def short(v):
    s = str(v)
    return s if len(s) < 160 else s[:157] + "..."


def kindof(vn):
    if vn.startswith("self."):
        return "param"
    if ".fluid[" in vn:
        return "fluid"
    return "state"


def entries(ctx, thorough=False):
    """Yield every compared entry (used by the check and the table builder)."""
    P = program()
    for c, tag, m in models(ctx, P, thorough=thorough, more=(shared, chars)):
        with ctx.guard("equations of %s [%s]" % (c.name, tag)):
            eqs = m.equations()
            for eq in eqs:
                key = "%s.%s" % (c.name, eq[0])
                if isinstance(eq[4], R) and eq[4].is_zero():
                    continue    # not set up in this arrangement
                if m.preset and "char" not in eq[0]:
                    continue
                with ctx.guard(key + (" [%s]" % tag if tag else "")):
                    r = analyse(m, eq)
                    if r["rows"] is None:
                        ctx.open(key, "residual of unknown shape")
                        continue
                    ctx.count("equations analysed")
                    yield c, tag, m, eq, r


def run(ctx):
    ctx.rule = ("entry(row r, variable v) == d residual[r] / d v wherever v is a variable of the system; no entry "
                "where v is not a variable; no entry in a foreign column")
    req = {tuple(x) for x in table("jac_required.json")}
    n = 0
    for c, tag, m, eq, r in entries(ctx, ctx.tier == "thorough"):
        key0 = "%s.%s" % (c.name, eq[0])
        w = where(eq[2])
        sfx = " [%s]" % tag if tag else ""
        for i, vn, kinds, exp, got, unguarded, fl in compare(m, r):
            key = "%s row %s d/d(%s)%s" % (key0, i, vn, sfx)
            if "foreign" in kinds:
                ctx.violate("%s %s%s" % (key0, vn, sfx), w,
                            "the derivative routine stores a value in %s, which is not the column of any variable the equation depends on" % vn)
                continue
            kd = kindof(vn)
            if unguarded:
                ctx.violate(key + " unguarded", w,
                            "an entry is stored in the column of %s although %s is not a variable of the system" % (vn, vn))
            if "wrong" in kinds:
                ctx.violate(key, w, "stored derivative %s, derivative of the residual is %s" % (short(got), short(exp)))
                n += 1
            elif "missing" in kinds:
                must = kd == "state" or (c.name, eq[0], "self" if kd == "param" and False else vn.split("[")[0] if kd == "fluid" else vn) in req
                if must:
                    ctx.violate(key, w, "the residual depends on %s (derivative %s) but the derivative routine stores nothing" % (vn, short(exp)))
                    n += 1
                else:
                    ctx.count("dependences on quantities the class does not offer as variable")
            elif "undecided" in kinds:
                if kd == "state" or got is not MISSING:
                    ctx.open(key, "value not modelled: %s vs %s" % (short(got), short(exp)))
            else:
                n += 1
                nz = not all(l is MISSING for _, l in dd.leaves(got))
                if nz or kd == "state":
                    ctx.ok(key, short(got) if nz else "no dependence")
                if nz:
                    ctx.count("nonzero entries equal to the derivative")
    ctx.floor("component equations", ctx.counts.get("equations analysed", 0), 150)
    ctx.floor("nonzero derivative entries", ctx.counts.get("nonzero entries equal to the derivative", 0), 350)
    ctx.assumptions = [
        "property functions (T_mix_ph, isentropic, ...) are differentiable functions of their arguments; starting values (T0) do not influence them",
        "d*_mix_* routines are taken as the derivative of the corresponding property function (their own definition is checked by C13)",
        "connections share a variable where the class passes the stream on and in the arrangements listed in tsa/configs.py (lines in series, recirculation); otherwise they are different variables",
        "dependence of real-mixture property functions on composition is only required where the class stores it today (documented approximation)",
    ]
    return EXPL
