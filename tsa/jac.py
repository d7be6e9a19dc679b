"""Residual/derivative comparison."""
from . import dd
from .dd import lit, batom, DD, apply, restrict, AND, NOT, literals
from .interp import OBJS, Ref, Maybe, num, sym, MISSING, UNDEF, _unhk, BoundV
from .model import undecided, flag
from .poly import R, ZERO, map_atoms

ALL_FALSE = sym("all_false")


def residual_rows(model, val, st):
    """Residual value -> list of gated rows, or None."""
    I = model.I
    val = restrict(val, st.assume)
    def norm(v):
        if isinstance(v, R):
            return (v,)
        if isinstance(v, Ref):
            it = I.iterate(v, st)
            if it is None or any(isinstance(x, Maybe) for x in it):
                return None
            return tuple(it)
        if isinstance(v, tuple):
            return v
        return None
    if isinstance(val, DD):
        ls = [norm(l) for _, l in dd.leaves(val)]
        if any(l is None for l in ls):
            return None
        n = {len(l) for l in ls}
        if len(n) != 1:
            return None
        return [apply(lambda v, i=i: norm(v)[i], val) for i in range(n.pop())]
    r = norm(val)
    return None if r is None else list(r)


class Entry:
    __slots__ = ("row", "col", "var", "value", "expected", "verdict", "why")


def explicit(r):
    """Derivative without the composition dependence hidden in property
    functions (the approximation TESPy documents for composition columns)."""
    def f(a):
        if a.kind in ("dfn", "dcall") and isinstance(a.args[1], str) and ":" in a.args[1]:
            return ZERO
        return None
    return map_atoms(r, f)


FIRST = literals(lit(batom("eq", sym("self.it"))))


def constant_in(v, model):
    for _, l in dd.leaves(v):
        if not isinstance(l, R) or any(a in model.vars for a in l.atoms()):
            return False
        if not l.is_const():
            return False
    return True


def sel_true(isvar):
    """assignment making the flag true"""
    return literals(isvar)


def analyse(model, eq, k=None):
    """Compare the entries one equation's derivative routine writes with the
    derivative of its residual.  Returns dict(rows, entries, problems)."""
    name, func, deriv, kw, num_eq, const, kind = eq
    I = model.I
    out = {"name": name, "rows": None, "entries": [], "notes": [], "exc": []}
    val, st, exc = model.run(func, [], kw)
    out["exc"] = exc
    rows = residual_rows(model, val, st)
    if rows is None:
        out["notes"].append("residual of unknown shape")
        return out
    out["rows"] = rows
    ksym = sym("k")
    args = [ksym] if const is True else [ALL_FALSE, ksym]
    I.log_mark = len(I.log)
    _, st2, exc2 = model.run(deriv, args, kw)
    out["exc2"] = exc2
    jac = {}
    for key in I.dict_keys(st2, model.jac):
        kk = _unhk(key)
        v = st2.heap.get((model.jac.oid, "k", key))
        if v is None:
            continue
        jac[kk] = v
    out["jac"] = jac
    return out


def compare(model, res):
    """Yield (row index, var name, verdict, expected, got) for every row and
    variable; verdict in ok, wrong, missing, unguarded, undecided, fluid-approx,
    foreign (entry in a row/column that belongs to nothing)."""
    rows = res["rows"]
    jac = dict(res["jac"])
    ksym = sym("k")
    seen = set()
    for i, r in enumerate(rows):
        row = ksym + num(i)
        for va, (vname, isvar, col, owner) in model.vars.items():
            got = jac.get((row, col), MISSING)
            seen.add((row, col))
            exp = model.D(r, va)
            if isvar is False:
                on, e_on, off = MISSING, ZERO, got
            elif isvar is True:
                on, e_on, off = got, exp, MISSING
            else:
                asg = literals(isvar)
                on = restrict(got, asg)
                e_on = restrict(exp, asg)
                off = restrict(got, {v: not b for v, b in asg.items()})
            if on is not MISSING and constant_in(e_on, model):
                # entries that never change may be written in the first
                # iteration only: the table of derivatives is kept
                on = restrict(on, FIRST)
            is_fluid = ".fluid[" in vname
            def v1(g, e):
                if g is MISSING or g is UNDEF:
                    if isinstance(e, R) and e.is_zero():
                        return "ok"
                    if undecided(e):
                        return "undecided"
                    return "missing"
                if undecided(g) or undecided(e):
                    return "undecided"
                if not isinstance(g, R):
                    if isinstance(g, bool):
                        g = num(int(g))
                    else:
                        return "undecided"
                if g == e or (is_fluid and g == explicit(e)):
                    return "ok"
                return "wrong"
            verdict = apply(v1, on, e_on)
            kinds = {l for _, l in dd.leaves(verdict)}
            bad_off = {l for _, l in dd.leaves(apply(lambda x: x is not MISSING and not (isinstance(x, R) and x.is_zero()), off))}
            yield i, vname, kinds, exp, got, (True in bad_off), is_fluid
    for (row, col), v in jac.items():
        if (row, col) not in seen:
            yield None, "row %r col %r" % (row, col), {"foreign"}, None, v, False, False
