"""Shared helpers of the checks."""
from .program import Program
from .interp import BoundV, FuncV
from .model import Model
from .configs import configs
from . import poly, dd

_models = {}


def program(stubs=()):
    key = "P" + "".join(stubs)
    if key not in _models:
        _models[key] = Program(stubs=stubs)
    return _models[key]


def concrete(P):
    """Component classes a user can put into a network."""
    out = []
    for c in P.subclasses("Component"):
        if c.find("get_mandatory_constraints") is None:
            continue
        out.append(c)
    return out


def fnode(f):
    """(qualified name, path:line) of a function value"""
    while isinstance(f, BoundV):
        f = f.k[0]
    if isinstance(f, FuncV):
        node, mod, owner = f.k[0], f.k[1], f.k[2]
        nm = getattr(node, "name", "<lambda>")
        q = (owner.name + "." if owner is not None else "") + nm
        return q, "%s:%d" % (mod.rel, node.lineno)
    return str(f), "?"


def where(f):
    q, w = fnode(f)
    return "%s (%s)" % (w, q)


def models(ctx, P, classes=None, thorough=False, more=()):
    for c in classes or concrete(P):
        ctx.units.add(c.module.rel)
        for tag, kw in list(configs(c, thorough)) + [x for f in more for x in f(c, P)]:
            m = None
            with ctx.guard("model of %s [%s]" % (c.name, tag)):
                m = Model(P, c, **kw)
            if m is not None:
                yield c, tag, m


def spec(m, text, env=None, st=None,
         module="tespy.tools.fluid_properties.functions"):
    """Value of a specification expression (Python expression text over the
    abstract objects of the model), formed by the same value numbering."""
    import ast
    from .interp import Frame
    node = ast.parse(text.strip(), mode="eval").body
    st = (st or m.st).copy()
    st.locals = dict(env or {})
    for nm, e in (("np", "numpy"), ("math", "math")):
        st.locals.setdefault(nm, m.I.ext(e))
    st.locals.setdefault("self", m.self)
    fr = Frame(m.P.modules[module], None, "<spec>", None)
    fr.node = None
    return m.I.eval(node, st, fr)


def isnan(r):
    """an arithmetic expression over not-a-number"""
    return any(a.kind == "sym" and a.args[0] == "nan" for a in r.atoms())


def same(a, b, factor=False):
    """Gated equality: True / False / None (undecided).  factor: equality up
    to a nonzero numeric constant."""
    from .model import undecided
    from .poly import R
    from .interp import MISSING, UNDEF
    seen = []

    def f(x, y):
        if x is y:
            return True
        if isinstance(x, bool) and isinstance(y, R):
            x = R.const(int(x))
        if isinstance(y, bool) and isinstance(x, R):
            y = R.const(int(y))
        if undecided(x) or undecided(y):
            return "?"
        if isinstance(x, R) and isinstance(y, R):
            if x == y or (isnan(x) and isnan(y)):
                return True
            if factor and not x.is_zero() and not y.is_zero():
                q = x / y
                if q.is_const():
                    seen.append(q.const_val())
                    return True
            return False
        if isinstance(x, R) != isinstance(y, R):
            return False
        try:
            return bool(x == y)
        except Exception:
            return "?"
    v = dd.apply(f, a, b)
    ls = set(dd.terminals(v))
    if False in ls:
        return False
    if "?" in ls:
        return None
    if factor and len(set(seen)) > 1:
        return False
    return True
