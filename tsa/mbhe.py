"""Sections of the moving boundary heat exchanger.

The temperature profiles are piecewise linear with a plateau at the phase
change; over every layout of the phase change points on the two sides the
residuals and results of the class are compared with the definition: the heat
exchanger is cut at every point where one of the sides starts or ends a phase
change, UA is the sum of Q / LMTD of the sections, the pinch the smallest
temperature difference at the cuts."""
import math
from fractions import Fraction as Fr

from . import dd
from .common import program
from .interp import num, sym
from .model import Model
from .poly import R, F

FN = "tespy.tools.fluid_properties."


def evalf(v):
    """number denoted by an expression over constants"""
    if isinstance(v, (int, float, Fr)):
        return float(v)
    if not isinstance(v, R):
        return None

    def at(i):
        from .poly import A
        a = A(i)
        x = [evalf(y) if isinstance(y, R) else y for y in a.args]
        fn = {"log": math.log, "abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log10": math.log10}.get(a.kind)
        if a.kind == "fn":
            fn = {"log": math.log, "abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log10": math.log10}.get(a.args[0])
            x = x[1:]
        if fn is None or any(y is None for y in x):
            raise ValueError("not a number: %s" % a.kind)
        return fn(*x)

    def poly(p):
        t = 0.0
        for m, c in p.items():
            z = float(c)
            for i, e in m:
                z *= at(i) ** e
            t += z
        return t
    try:
        r = poly(v.num)
        for i, e in v.den:
            r /= poly(F(i)) ** e
        return r
    except (ValueError, ZeroDivisionError):
        return None


class Side:
    """Fluid of one side: saturation enthalpies and temperatures."""

    def __init__(self, p, hl, hg, Ts, cl, cg, pure=True):
        self.p, self.hl, self.hg, self.Ts, self.cl, self.cg, self.pure = Fr(p), Fr(hl), Fr(hg), Fr(Ts), Fr(cl), Fr(cg), pure

    def T(self, h):
        if not self.pure:
            return self.Ts + (h - self.hl) / self.cl
        if h <= self.hl:
            return self.Ts - (self.hl - h) / self.cl
        if h >= self.hg:
            return self.Ts + (h - self.hg) / self.cg
        return self.Ts


HOT = [(150, 1150), (300, 1150), (700, 1150), (150, 700), (1120, 1150), (150, 300), (300, 700)]
COLD = [(5, 605), (40, 605), (150, 605), (5, 150), (520, 605), (5, 40), (150, 300)]


def layouts():
    """(hot side, h out, h in, cold side, h in, h out, m hot, m cold)"""
    n = 0
    for pure_h, pure_c in ((True, True), (True, False), (False, True), (False, False)):
        for ho, hi in HOT if pure_h else HOT[:1]:
            for ci, co in COLD if pure_c else COLD[:1]:
                hot = Side(50, 200, 1100, 500, 2, 1, pure_h)
                cold = Side(7, 30, 500, 300, 3, Fr(3, 2), pure_c)
                mh = Fr(2 + n % 3)
                mc = mh * (hi - ho) / (co - ci)
                n += 1
                yield hot, Fr(ho), Fr(hi), cold, Fr(ci), Fr(co), mh, mc
    # a phase change at the end of a side, equal positions of both sides
    hot = Side(50, 200, 1100, 500, 2, 1)
    cold = Side(7, 30, 500, 300, 3, Fr(3, 2))
    for ho, hi, ci, co in ((200, 1150, 5, 605), (150, 1100, 5, 605), (200, 1100, 30, 500), (150, 1150, 30, 605), (150, 1150, 5, 500),
                           (100, 1200, 5, 555)):
        yield hot, Fr(ho), Fr(hi), cold, Fr(ci), Fr(co), Fr(1), Fr(hi - ho) / (co - ci)


def cuts(side, a, b):
    """enthalpies at which a side is cut, from low to high"""
    return [a] + ([h for h in (side.hl, side.hg) if a < h < b] if side.pure else []) + [b]


def expected(lay):
    hot, ho, hi, cold, ci, co, mh, mc = lay
    Q = sorted({(h - ho) * mh for h in cuts(hot, ho, hi)} | {(h - ci) * mc for h in cuts(cold, ci, co)})
    td = [hot.T(ho + q / mh) - cold.T(ci + q / mc) for q in Q]
    ua = 0.0
    for i in range(len(Q) - 1):
        x, y = float(td[i]), float(td[i + 1])
        lm = y if abs(x - y) < 1e-9 else (y - x) / math.log(y / x)
        ua += float(Q[i + 1] - Q[i]) / lm
    return ua, float(min(td)), len(Q) - 1


def describe(lay):
    hot, ho, hi, cold, ci, co, mh, mc = lay

    def s(side, a, b):
        if not side.pure:
            return "mixture"
        r = lambda h: "liquid" if h < side.hl else "saturated liquid" if h == side.hl else "saturated gas" if h == side.hg else \
            "gas" if h > side.hg else "two-phase"
        return "%s to %s" % (r(a), r(b))
    return "hot side %s, cold side %s" % (s(hot, ho, hi), s(cold, ci, co))


def build(lay):
    P = program(("nparr",))
    cls = P.classes["MovingBoundaryHeatExchanger"]
    m = Model(P, cls, fluids=("H2O",))
    hot, ho, hi, cold, ci, co, mh, mc = lay
    data = {}
    for side, i, hin, hout, mm in ((hot, 0, hi, ho, mh), (cold, 1, ci, co, mc)):
        a, b = m.inl[i], m.outl[i]
        m.setv(b, "fluid_data", m.attr(a, "fluid_data"))
        data[m.attr(a, "fluid_data").oid] = side
        for c, h in ((a, hin), (b, hout)):
            m.setv(m.attr(c, "h"), "val_SI", num(h))
            m.setv(m.attr(c, "m"), "val_SI", num(mm))
            m.setv(m.attr(c, "p"), "val_SI", num(side.p))
            # the user's units are others
            for k, v in (("h", h), ("m", mm), ("p", side.p)):
                m.setv(m.attr(c, k), "val", num(v * Fr(7, 3)))

    def side_of(a, k=2):
        if len(a) <= k or getattr(a[k], "oid", None) not in data:
            return None
        return data[a[k].oid]

    def T(I, a, kw, st, fr, fv):
        s = side_of(a)
        if s is None or not all(isinstance(x, R) and x.is_const() for x in a[:2]) or a[0].const_val() != s.p:
            return I.unk("temperature of an unknown state")
        return num(s.T(a[1].const_val()))

    def hq(I, a, kw, st, fr, fv):
        s = side_of(a)
        if s is None or not all(isinstance(x, R) and x.is_const() for x in a[:2]) or a[0].const_val() != s.p:
            return I.unk("saturation of an unknown state")
        q = a[1].const_val()
        return num(s.hl + q * (s.hg - s.hl))

    def single(I, a, kw, st, fr, fv):
        s = side_of(a, 0)
        if s is None:
            return I.unk("fluid data")
        return "H2O" if s.pure else None

    def call(f):
        def g(I, a, kw, st, fr, fv):
            a = list(a) + [kw[k] for k in ("p", "h", "Q", "T", "fluid_data") if k in kw]
            return f(I, a, kw, st, fr, fv)
        return g
    m.I.intrinsics[FN + "functions.T_mix_ph"] = call(T)
    m.I.intrinsics[FN + "functions.h_mix_pQ"] = call(hq)
    m.I.intrinsics[FN + "helpers.single_fluid"] = call(single)
    return m


def value(v, st):
    v = dd.restrict(v, st.assume)
    return evalf(v) if not isinstance(v, dd.DD) else None


def obligations(ctx, residuals):
    from .common import where
    for n, lay in enumerate(layouts()):
        ua, pinch, sections = expected(lay)
        key0 = "MovingBoundaryHeatExchanger, %s (layout %d)" % (describe(lay), n)
        with ctx.guard(key0):
            m = build(lay)
            for name, want in (("UA", ua), ("td_pinch", pinch)):
                if residuals:
                    key = "%s: equation of %s" % (key0, name)
                    f = [e[1] for e in m.equations() if e[0] == name]
                    ctx.check(len(f) == 1, key + " exists", where(m.meth(m.self, "calc_parameters")), "there is none")
                    if not f:
                        continue
                    m.setv(m.param(name), "val", num(Fr(want).limit_denominator(10 ** 9)))
                    v, st, exc = m.run(f[0], [], {})
                    got = value(v, st)
                    what = "residual at the solution is %s" % got
                    good = None if got is None else abs(got) <= 1e-6 * max(1, abs(want))
                    f = f[0]
                    if good:
                        m.setv(m.param(name), "val", num(Fr(want).limit_denominator(10 ** 9) * 2))
                        v, st, exc = m.run(f, [], {})
                        r = value(v, st)
                        good = None if r is None else abs(r) > 1e-6 * max(1, abs(want))
                        what = "a wrong value satisfies the equation"
                else:
                    key = "%s: result %s" % (key0, name)
                    f = m.meth(m.self, "calc_parameters")
                    _, st, exc = m.run(f, [], {})
                    got = value(m.I.getattr_(m.param(name), "val", st, m.fr), st)
                    good = None if got is None else abs(got - want) <= 1e-6 * max(1, abs(want))
                    what = "is %s, the sections give %s" % (got, want)
                ctx.check(good, key, where(f), what)
