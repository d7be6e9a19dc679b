"""C20: looking at a model does not change it."""
import ast
from ..common import program, concrete
from ..effects import Effects
from . import c13

EXPL = ("side effects of the functions that evaluate equations, fluid properties, characteristics and reports, by an analysis of all functions "
        "of the package: which existing objects a call can change, through aliases, containers and callees")

# attributes that make up the state of a model
STATE = {"val_SI", "fluid.val", "val0", "is_set", "is_var", "design", "unit", "ref", "char_func", "_solved", "is_result", "J_col",
         "m", "p", "h", "T", "x", "v", "vol", "Td_bp", "fluid", "inl", "outl", "source", "target", "label", "local_design", "local_offdesign",
         "offdesign", "design_path", "mixing_rule", "comps", "conns", "busses", "results", "specifications", "min_val", "max_val", "factor", "delta",
         "P", "char", "user_defined_eq", "y", "z", "engine", "back_end", "mass_fraction", "parameters", "property_data", "printout", "variables_dict"}


# results that are calculated along with the equation
RESULTS = {"lamb.val"}


def show(p):
    return ".".join(x for x in p if x not in ("~", "[]")) or p[0]


def temporary(E):
    """functions writing an attribute more than once put the old value back
    (what they leave is decided where these functions are interpreted); so
    do helpers that are called more than once by all of their callers"""
    out = {x for a, w in E.writes.items() for s in w.values() if len(s) > 1 for x in s}

    def calls(g, name):
        return sum(1 for n in ast.walk(g.node) if isinstance(n, ast.Call) and (
            isinstance(n.func, ast.Name) and n.func.id == name or isinstance(n.func, ast.Attribute) and n.func.attr == name))
    helpers = set()
    more = True
    while more:
        more = {f for f in E.funcs if f not in helpers and f.callers and f.effects and all(g in helpers or calls(g, f.node.name) > 1 for g in f.callers)}
        helpers |= more
    return out | {x for f in helpers for s in f.effects.values() for x in s}


def value(p):
    """the value of a parameter"""
    return p[-1] == "val" or p[-1].endswith(".val")


def equations(P, E):
    """names of the methods that give residuals and derivatives"""
    func, deriv = set(), set()
    for f in E.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg in ("func", "deriv") and isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name):
                        (func if k.arg == "func" else deriv).add(k.value.attr)
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value in ("func", "deriv") and isinstance(v, ast.Attribute):
                        (func if k.value == "func" else deriv).add(v.attr)
    return func, deriv


def judge(ctx, E, fs, kind, bad):
    n = 0
    for f in fs:
        n += 1
        ctx.units.add(f.module.rel)
        wrong = [p for p in sorted(f.effects) if bad(f, p)]
        key = "%s|%s" % (kind, f.qname)
        if not wrong:
            ctx.ok(key)
            continue
        for p in wrong:
            s = sorted(f.effects[p])
            ctx.violate(key + "|" + show(p), "%s:%d (%s)" % s[0], "%s (%s) changes %s of an existing object, the change is made in %s" % (
                f.qname, kind, p[-1] if p[-1] != "[]" else "the content of " + p[0], ", ".join("%s line %d" % (x[2], x[1]) for x in s[:3])))
    ctx.count(kind, n)
    return n


def private(E, entries):
    """attributes used by nothing but the reports themselves"""
    reach, work = set(), list(entries)
    names = {}
    for f in E.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                names.setdefault(n.attr, set()).add(f)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                names.setdefault(n.value, set()).add(f)
    called = {}
    for f in E.funcs:
        for g in f.callers:
            called.setdefault(g, set()).add(f)
    while work:
        f = work.pop()
        if f not in reach:
            reach.add(f)
            work += called.get(f, ())
    own = {e.cls for e in entries} | {None}
    mine = {f for f in reach if f in entries or f.callers and f.callers <= reach}
    return {a for a, fs in names.items() if fs <= mine}


class Part:
    """the obligations on what is left behind by another analysis"""
    def __init__(self, ctx):
        self.ctx, self.units, self.n = ctx, ctx.units, 0

    def check(self, cond, key, where, message):
        if " restores " in key or " unchanged" in key or " leaves " in key:
            self.n += 1
            return self.ctx.check(cond, "perturbation|" + key, where, message or "the value after the call differs from the one before")
        return cond

    def guard(self, key):
        return self.ctx.guard("perturbation|" + key)

    def ok(self, *a):
        return None
    violate = open = count = floor = ok
    counts = {}


GENERIC = {"is_set", "is_var", "val", "val0", "val_SI", "design", "unit"}


def kept(ctx, E, api):
    """containers of the user that become part of the model are not modified
    there"""
    inside = set(api)
    more = True
    while more:
        more = {f for f in E.funcs if f not in inside and f.callers and f.callers <= inside}
        inside |= more
    where = {}
    for f in E.funcs:
        for k, s in f.inplace.items():
            for x in s:
                where.setdefault(k, {})[x] = f
    n = 0
    for f in E.funcs:
        if f not in inside or not f.cls:
            continue
        for k, sites in f.keeps.items():
            n += 1
            hit = dict(where.get(k, {}))
            if k[0] == "self":
                hit = {x: g for x, g in hit.items() if g.cls and (g.cls in f.cls.mro or f.cls in g.cls.mro) and x[2] != f.qname}
            elif k[1] not in GENERIC:
                hit.update(where.get(("?", k[1]), {}))
            key = "kept|%s|%s" % (f.qname, ".".join(k))
            if hit:
                x = sorted(hit)[0]
                ctx.violate(key, "%s:%d (%s)" % sorted(sites)[0], "the argument of the user becomes %s itself and is modified by %s (%s line %d)" % (".".join(k), x[2], x[0], x[1]))
            else:
                ctx.ok(key)
    ctx.floor("arguments kept", n, 8)


def run(ctx):
    ctx.rule = "no write to an existing object of the model is reachable from an evaluation or a report"
    P = program()
    E = Effects(P)
    ctx.check(E.complete, "fixed point", "tsa/effects.py", "the analysis did not finish") if E.complete else ctx.open("fixed point", "not reached")
    E.writes = {}
    for f in E.funcs:
        for p, s in f.effects.items():
            for x in s:
                if x[2] == f.qname and x[0] == f.module.rel:
                    E.writes.setdefault(p[-1], {}).setdefault(x[2], set()).add(x)
    ctx.count("functions", len(E.funcs))
    meth = lambda *names: [f for n in names for f in E.methods.get(n, [])]
    of = lambda c, *names: [f for f in meth(*names) if f.cls.name == c]
    mod = lambda m: [f for f in E.funcs if f.module.name == m]

    # reports
    rep = of("Network", "print_results", "save", "export", "iterinfo_head", "iterinfo_body", "iterinfo_tail", "get_conn", "get_comp")
    rep += of("ExergyAnalysis", "print_results") + [f for f in mod("tespy.tools.document_models") if f.node.name == "document_model"]
    rep += meth("get_attr", "get_plotting_data", "_serialize", "to_dict")
    rep += [f for f in E.funcs if f.module.name == "tespy.tools.characteristics" and f.cls and f.node.name not in ("__init__", "set_attr")]
    free = private(E, rep) | {"AS"}
    ctx.floor("reports", judge(ctx, E, rep, "report", lambda f, p: p[-1] not in free), 30)

    # equations
    func, deriv = equations(P, E)
    owners = lambda names: [f for n in sorted(names) for f in E.methods.get(n, []) if f.cls.name not in ("UserDefinedEquation",)]
    fs = owners(func)
    tmp = temporary(E)
    once = lambda f, p: any(x not in tmp for x in f.effects[p])
    state = STATE
    ctx.floor("equations", judge(ctx, E, fs, "equation", lambda f, p: (p[-1] in state or value(p) and p[-1] not in RESULTS) and p[0] != "global"), 60)
    ds = owners(deriv) + meth("bus_deriv")
    ctx.floor("derivatives", judge(ctx, E, ds, "derivative", lambda f, p: (p[-1] in state or value(p) and p[-1] not in RESULTS) and p[0] != "global" and once(f, p)), 60)
    ex = meth("calc_bus_value", "calc_bus_expr", "calc_bus_efficiency", "bus_func", "get_char_expr", "calc_T", "calc_T_sat", "calc_s", "calc_vol", "calc_x", "calc_viscosity",
              "calc_Q", "calc_Td_bp", "calc_phase", "calc_kA", "calc_eta_s", "is_branch_source", "get_variables")
    ctx.floor("evaluations", judge(ctx, E, ex, "evaluation", lambda f, p: p[-1] in state or value(p)), 20)

    # results and safeguards leave the specifications alone
    for names, but in (("calc_parameters", {"val_SI", "is_result"}), ("check_parameter_bounds", set()),
                       ("postprocessing", {"val_SI", "is_result", "busses", "comps", "results", "val0"}),
                       ("convergence_check", {"val_SI", "fluid", "fluid.val", "inl", "outl"})):
        judge(ctx, E, meth(names), "result" if names != "convergence_check" else "safeguard", lambda f, p, but=but: p[-1] in STATE - but or not but and value(p))

    # fluid properties
    fp = [f for f in E.funcs if f.module.name.startswith("tespy.tools.fluid_properties")]
    init = {f for f in fp if f.node.name == "__init__"}
    const = {p[-1] for f in init for p in f.effects if p[0] == "self"} - {"AS"}
    more = True
    while more:
        more = {f for f in fp if f.cls and f not in init and f.callers and f.callers <= init}
        init |= more
    fp = [f for f in fp if f not in init]
    ctx.floor("property functions", judge(ctx, E, fp, "property function", lambda f, p: (
        p[-1] in const if p[0] == "self" else p[-1] != "AS") and once(f, p)), 80)

    # functions that change a value for a moment
    part = Part(ctx)
    c13.differences(part, P)
    c13.numeric(part, P)
    ctx.floor("perturbations", part.n, 10)

    # exergy analysis
    ea = of("ExergyAnalysis", "__init__", "analyse")
    own = {p[1] for f in E.funcs if f.cls and f.cls.name == "ExergyAnalysis" for p in f.effects if p[0] == "self" and len(p) == 2}
    judge(ctx, E, ea, "exergy analysis", lambda f, p: p[-1] in state - own and len(p) > 2)
    xb = meth("exergy_balance", "entropy_balance", "get_physical_exergy", "get_chemical_exergy")
    judge(ctx, E, xb, "exergy balance", lambda f, p: p[-1] in state)

    # arguments of the user
    api = meth("set_attr", "__init__", "add_comps", "add_conns", "add_busses", "add_subsys", "add_ude", "del_conns", "del_busses", "solve", "print_results", "analyse", "evaluate")
    api = [f for f in api if not (f.cls.name == "OptimizationProblem")] + [f for f in E.funcs if f.cls is None and f.node.name in ("document_model", "load_network", "load_custom_char", "load_default_char")]
    ctx.floor("calls of the user", judge(ctx, E, api, "call of the user", lambda f, p: p[0] not in ("self", "global") and p[-1] == "[]"), 30)
    kept(ctx, E, api)
    return EXPL
