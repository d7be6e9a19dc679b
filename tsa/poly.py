"""Canonical numeric value domain.

A numeric abstract value is a rational function with exact rational
coefficients over hash-consed *atoms* (program inputs, opaque calls, ...).
num is a Laurent polynomial, den a product of (non monomial) polynomial
factors.  Equality is exact (cross multiplication), hashing uses a
fingerprint in a prime field so that equal rational functions hash equally.
"""
from fractions import Fraction
import hashlib

_P = (1 << 61) - 1


class Atom:
    __slots__ = ("id", "kind", "args", "fp", "tag")
    _table = {}
    _list = []

    def __repr__(self):
        return show_atom(self)


def atom(kind, *args, tag=None):
    """Hash-consed atom; args are hashable abstract values."""
    key = (kind,) + tuple(_key(a) for a in args)
    a = Atom._table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom._list)
        a.kind = kind
        a.args = args
        a.tag = tag
        h = hashlib.sha256(("%d" % a.id).encode()).digest()
        a.fp = int.from_bytes(h[:8], "big") % (_P - 2) + 1
        Atom._table[key] = a
        Atom._list.append(a)
    return a


def _key(a):
    if isinstance(a, (bool, int, float, str)) or a is None:
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return ("tuple",) + tuple(_key(x) for x in a)
    return a


def A(i):
    return Atom._list[i]


# --------------------------------------------------------------------------
# Laurent polynomials: dict {monomial: Fraction}; monomial = ((aid, exp),...)
# --------------------------------------------------------------------------

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a):
    return {((a.id, 1),): Fraction(1)}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a)
    return tuple(sorted(d.items()))


class Blowup(Exception):
    pass


MAX_TERMS = 6000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > 4000000:
        raise Blowup()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAX_TERMS:
        raise Blowup()
    return r


def p_pow(a, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_atoms(a):
    return {i for m in a for i, _ in m}


def p_fp(a):
    s = 0
    for m, c in a.items():
        t = c.numerator % _P * pow(c.denominator % _P, _P - 2, _P) % _P
        for i, e in m:
            f = A(i).fp
            t = t * pow(f, e if e >= 0 else (_P - 1 + e % (_P - 1)) % (_P - 1), _P) % _P
        s += t
    return s % _P


def _lead(p):
    return max(p)


def p_normal(p):
    """Return (unit monomial poly u, q) with p = u*q, q normalised factor."""
    # monomial content: minimal exponents
    mins = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            mins = dict(d)
            first = False
        else:
            for a in list(mins):
                if a in d:
                    mins[a] = min(mins[a], d[a])
                else:
                    mins[a] = min(mins[a], 0)
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
    cont = tuple(sorted((a, e) for a, e in mins.items() if e))
    inv = tuple((a, -e) for a, e in cont)
    q = {m_mul(m, inv): c for m, c in p.items()}
    lc = q[_lead(q)]
    q = {m: c / lc for m, c in q.items()}
    return {cont: lc}, q


def p_div_exact(a, b):
    """Exact division of ordinary/Laurent polynomial a by normalised b."""
    # make a ordinary w.r.t. all atoms
    if not a:
        return {}
    if len(b) > len(a) and len(a) > 1:
        pass
    u, q = p_normal(a)
    lb = _order_lead(b)
    cb = b[lb]
    quo = {}
    rem = dict(q)
    steps = 0
    while rem:
        lr = _order_lead(rem)
        d = dict(lr)
        ok = True
        for at, e in lb:
            v = d.get(at, 0) - e
            if v < 0:
                ok = False
                break
            if v:
                d[at] = v
            else:
                d.pop(at, None)
        if not ok:
            return None
        m = tuple(sorted(d.items()))
        c = rem[lr] / cb
        quo[m] = quo.get(m, 0) + c
        for mb, c2 in b.items():
            mm = m_mul(m, mb)
            v = rem.get(mm, 0) - c * c2
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        steps += 1
        if steps > 800:
            return None
    return p_mul(quo, u)


def _order_lead(p):
    # lexicographic order on exponent vectors (by atom id)
    best = None
    ids = sorted({i for m in p for i, _ in m})
    def key(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ids)
    return max(p, key=key)


_factors = {}
_factor_list = []


def factor_id(q):
    k = frozenset(q.items())
    i = _factors.get(k)
    if i is None:
        i = len(_factor_list)
        _factors[k] = i
        _factor_list.append(q)
    return i


def F(i):
    return _factor_list[i]


class R:
    """Rational function."""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num else ()
        self._h = None

    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(repr(c))
        return R(p_const(c))

    @staticmethod
    def of(a):
        return R(p_atom(a))

    # --- algebra
    def _den_poly(self):
        r = {(): Fraction(1)}
        for f, e in self.den:
            r = p_mul(r, p_pow(F(f), e))
        return r

    def __neg__(self):
        return R(p_neg(self.num), self.den)

    def __add__(self, o):
        if self.den == o.den:
            return _reduce(p_add(self.num, o.num), self.den)
        d1, d2 = dict(self.den), dict(o.den)
        lcm = dict(d1)
        for f, e in d2.items():
            lcm[f] = max(lcm.get(f, 0), e)
        n1, n2 = self.num, o.num
        for f, e in lcm.items():
            k = e - d1.get(f, 0)
            if k:
                n1 = p_mul(n1, p_pow(F(f), k))
            k = e - d2.get(f, 0)
            if k:
                n2 = p_mul(n2, p_pow(F(f), k))
        return _reduce(p_add(n1, n2), tuple(sorted(lcm.items())))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return _reduce(p_mul(self.num, o.num), tuple(sorted(d.items())))

    def inverse(self):
        if not self.num:
            raise ZeroDivisionError
        if len(self.num) == 1:
            (m, c), = self.num.items()
            num = {tuple((a, -e) for a, e in m): 1 / c}
            den = ()
        else:
            u, q = p_normal(self.num)
            (m, c), = u.items()
            num = {tuple((a, -e) for a, e in m): 1 / c}
            den = ((factor_id(q), 1),)
        r = R(num, den)
        for f, e in self.den:
            r = r * R(p_pow(F(f), e))
        return r

    def __truediv__(self, o):
        return self * o.inverse()

    def ipow(self, n):
        if n < 0:
            return self.inverse().ipow(-n)
        r = R.const(1)
        for _ in range(n):
            r = r * self
        return r

    # --- queries
    def is_const(self):
        return not self.num or (len(self.num) == 1 and () in self.num and not self.den)

    def const_val(self):
        return self.num.get((), Fraction(0))

    def as_atom(self):
        if not self.den and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return A(m[0][0])
        return None

    def atom_ids(self):
        s = p_atoms(self.num)
        for f, _ in self.den:
            s |= p_atoms(F(f))
        return s

    def atoms(self):
        return [A(i) for i in self.atom_ids()]

    def is_zero(self):
        return not self.num

    def __eq__(self, o):
        if not isinstance(o, R):
            return NotImplemented
        if self is o:
            return True
        if self.den == o.den:
            return self.num == o.num
        if hash(self) != hash(o):
            return False
        a = p_mul(self.num, o._den_poly())
        b = p_mul(o.num, self._den_poly())
        return a == b

    def __hash__(self):
        if self._h is None:
            v = p_fp(self.num)
            for f, e in self.den:
                fp = p_fp(F(f))
                v = v * pow(pow(fp, e, _P), _P - 2, _P) % _P
            self._h = v
        return self._h

    def __repr__(self):
        n = show_poly(self.num)
        if self.den:
            d = "*".join("(%s)%s" % (show_poly(F(f)), "^%d" % e if e > 1 else "")
                         for f, e in self.den)
            return "(%s)/%s" % (n, d)
        return n


def _reduce(num, den):
    if not num:
        return R({}, ())
    if not den:
        return R(num, ())
    out = []
    for f, e in den:
        q = F(f)
        while e > 0 and len(num) >= len(q) and len(num) <= 400:
            r = p_div_exact(num, q)
            if r is None:
                break
            num = r
            e -= 1
        if e:
            out.append((f, e))
    return R(num, tuple(out))


ZERO = R.const(0)
ONE = R.const(1)


def map_atoms(r, fn):
    """Substitute atoms by R values: fn(Atom) -> R or None(unchanged)."""
    cache = {}

    def val(i):
        if i not in cache:
            v = fn(A(i))
            cache[i] = R.of(A(i)) if v is None else v
        return cache[i]

    def poly(p):
        s = R.const(0)
        keep = {}
        for m, c in p.items():
            changed = False
            for i, e in m:
                v = val(i)
                if v.as_atom() is not A(i):
                    changed = True
            if not changed:
                keep[m] = c
                continue
            t = R({(): c})
            for i, e in m:
                t = t * val(i).ipow(e)
            s = s + t
        return R(keep) + s

    res = poly(r.num)
    for f, e in r.den:
        res = res / poly(F(f)).ipow(e)
    return res


def diff(r, datom):
    """Total derivative; datom(Atom) -> R (derivative of that atom)."""
    cache = {}

    def d(i):
        if i not in cache:
            cache[i] = datom(A(i))
        return cache[i]

    def dpoly(p):
        s = R.const(0)
        for m, c in p.items():
            for k, (i, e) in enumerate(m):
                di = d(i)
                if di.is_zero():
                    continue
                mono = list(m)
                if e == 1:
                    del mono[k]
                else:
                    mono[k] = (i, e - 1)
                s = s + R({tuple(mono): c * e}) * di
        return s

    if not r.den:
        return dpoly(r.num)
    # quotient
    dn = dpoly(r.num)
    res = dn * R({(): Fraction(1)}, r.den)
    for f, e in r.den:
        df = dpoly(F(f))
        if df.is_zero():
            continue
        inv = R({(): Fraction(1)}, ((f, 1),))
        res = res - R(r.num, r.den) * df * inv * R.const(e)
    return res


# --------------------------------------------------------------------------

def show_poly(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        s = "*".join(show_atom(A(i)) + ("^%d" % e if e != 1 else "") for i, e in m)
        if not s:
            s = _fr(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = _fr(c) + "*" + s
        out.append(s)
    return " + ".join(out)


def _fr(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fraction(repr(f)) == c:
        return repr(f)
    return "%d/%d" % (c.numerator, c.denominator)


def show_atom(a):
    if a.kind == "sym":
        return str(a.args[0])
    if a.kind == "attr":
        return "%s.%s" % (show(a.args[0]), a.args[1])
    if a.kind == "item":
        return "%s[%s]" % (show(a.args[0]), show(a.args[1]))
    return "%s(%s)" % (a.kind if a.kind not in ("call", "fn") else show(a.args[0]),
                       ", ".join(show(x) for x in (a.args[1:] if a.kind in ("call", "fn") else a.args)))


def show(v):
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return str(v) if isinstance(v, str) else repr(v)
