"""Gated values: ordered, reduced decision diagrams over boolean atoms.

A gated value is either a leaf (any hashable abstract value) or a DD node
(var, hi, lo).  Booleans are diagrams with leaves True/False.  This is the
phi-merge of the data flow analysis: control flow joins build diagrams, no
path is ever enumerated.
"""
from .limits import tick
from .poly import R, Blowup


class BAtom:
    __slots__ = ("id", "kind", "args")
    _table = {}
    _list = []

    def __repr__(self):
        from .poly import show
        return "%s(%s)" % (self.kind, ", ".join(show(a) for a in self.args))


def batom(kind, *args):
    from .poly import _key
    k = (kind,) + tuple(_key(a) for a in args)
    a = BAtom._table.get(k)
    if a is None:
        a = BAtom()
        a.id = len(BAtom._list)
        a.kind = kind
        a.args = args
        BAtom._table[k] = a
        BAtom._list.append(a)
    return a


def BA(i):
    return BAtom._list[i]


class DD:
    __slots__ = ("var", "hi", "lo", "_hash")
    _table = {}

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    _depth = 0

    def __repr__(self):
        if DD._depth > 4:
            return "..."
        DD._depth += 1
        try:
            return "{%r ? %s : %s}" % (BA(self.var), _s(self.hi), _s(self.lo))
        finally:
            DD._depth -= 1


def _s(x):
    from .poly import show
    return show(x)


def lkey(v):
    if isinstance(v, (bool, int, float, str)) or v is None:
        return (type(v).__name__, v)
    if isinstance(v, tuple):
        return ("t",) + tuple(lkey(x) for x in v)
    return v


def leq(a, b):
    if a is b:
        return True
    if isinstance(a, DD) or isinstance(b, DD):
        return False
    return lkey(a) == lkey(b)


COUNT = [0]
LIMIT = 200000


def node(var, hi, lo):
    if leq(hi, lo):
        return hi
    k = (var, lkey(hi), lkey(lo))
    n = DD._table.get(k)
    if n is None:
        COUNT[0] += 1
        n = DD()
        n.var, n.hi, n.lo = var, hi, lo
        n._hash = hash((var, id(hi) if isinstance(hi, DD) else hash(lkey(hi)),
                        id(lo) if isinstance(lo, DD) else hash(lkey(lo))))
        DD._table[k] = n
    return n


def lit(b):
    return node(b.id, True, False)


def cof(v, var, val):
    """cofactor where v's top var may be var (ordered)."""
    if isinstance(v, DD) and v.var == var:
        return v.hi if val else v.lo
    return v


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if leq(a, b):
        return a
    if not isinstance(c, DD):
        raise TypeError("condition %r" % (c,))
    memo = {}
    budget = [20000]

    def go(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if leq(a, b):
            return a
        k = (c, lkey(a), lkey(b))
        r = memo.get(k)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            raise Blowup()
        v = c.var
        if isinstance(a, DD) and a.var < v:
            v = a.var
        if isinstance(b, DD) and b.var < v:
            v = b.var
        r = node(v, go(cof(c, v, True), cof(a, v, True), cof(b, v, True)),
                 go(cof(c, v, False), cof(a, v, False), cof(b, v, False)))
        memo[k] = r
        return r

    return go(c, a, b)


def NOT(c):
    return ite(c, False, True)


def AND(a, b):
    return ite(a, b, False)


def OR(a, b):
    return ite(a, True, b)


def apply(f, *vals):
    """Lift f over gated values; f may itself return a gated value."""
    if not any(isinstance(v, DD) for v in vals):
        return f(*vals)
    memo = {}
    budget = [6000]

    def go(vals):
        top = None
        for v in vals:
            if isinstance(v, DD) and (top is None or v.var < top):
                top = v.var
        if top is None:
            return f(*vals)
        k = tuple(lkey(v) for v in vals)
        if k in memo:
            return memo[k]
        budget[0] -= 1
        if budget[0] < 0:
            raise Blowup()
        if not budget[0] & 63:
            tick()
        hi = go(tuple(cof(v, top, True) for v in vals))
        lo = go(tuple(cof(v, top, False) for v in vals))
        r = ite(node(top, True, False), hi, lo)
        memo[k] = r
        return r

    return go(tuple(vals))


def leaves(v, path=()):
    """Yield (assignment, leaf)."""
    if isinstance(v, DD):
        yield from leaves(v.hi, path + ((v.var, True),))
        yield from leaves(v.lo, path + ((v.var, False),))
    else:
        yield path, v


def terminals(v):
    """list of the distinct leaf values (no paths)"""
    out, seen = [], set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, DD):
            if x not in seen:
                seen.add(x)
                todo.append(x.hi)
                todo.append(x.lo)
        else:
            out.append(x)
    return out


def restrict(v, assign):
    """assign: dict var->bool."""
    if not isinstance(v, DD) or not assign:
        return v
    memo = {}

    def go(v):
        if not isinstance(v, DD):
            return v
        if v in memo:
            return memo[v]
        if v.var in assign:
            r = go(v.hi if assign[v.var] else v.lo)
        else:
            r = node(v.var, go(v.hi), go(v.lo))
        memo[v] = r
        return r

    return go(v)


def support(v):
    s = set()
    seen = set()

    def go(v):
        if isinstance(v, DD) and v not in seen:
            seen.add(v)
            s.add(v.var)
            go(v.hi)
            go(v.lo)
    go(v)
    return s


def literals(c):
    """If boolean diagram implies literals, return {var: bool} (implied)."""
    out = {}
    # walk: a literal is implied if one child is False
    while isinstance(c, DD):
        if c.lo is False:
            out[c.var] = True
            c = c.hi
        elif c.hi is False:
            out[c.var] = False
            c = c.lo
        else:
            break
    return out


def compose(v, fn):
    """Replace boolean atoms: fn(BAtom)-> bool/DD/None (None: keep)."""
    memo = {}

    def go(v):
        if not isinstance(v, DD):
            return v
        if v in memo:
            return memo[v]
        c = fn(BA(v.var))
        hi, lo = go(v.hi), go(v.lo)
        if c is None:
            c = node(v.var, True, False)
        r = ite(c, hi, lo)
        memo[v] = r
        return r
    return go(v)
