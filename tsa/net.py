"""Abstract network: a Network object whose tables hold abstract components,
connections, busses and user defined equations."""
from .interp import (Interp, State, Frame, FuncV, BoundV, ClassV, Ref, OBJS,
                     new_obj, num, sym, MISSING, UNDEF, _unhk)
from .poly import R


class NetModel:
    def __init__(self, P, base=None):
        """base: a Model whose state holds the abstract components."""
        self.P = P
        if base is None:
            self.I = Interp(P)
            self.st = State({}, {}, True)
            self.fr = Frame(P.modules["tespy.networks.network"], None, "<top>", None)
            self.fr.node = None
        else:
            self.I, self.st, self.fr = base.I, base.st, base.fr
        self.I.intrinsics.pop("tespy.components.component.Component.preprocess", None)
        self.calls = []
        self.I.trace_calls = lambda f, a, k, st: self.calls.append((f, a, k))
        self.nw = new_obj("object", P.classes["Network"], path="nw")

    def new(self, cls, **kw):
        return self.I.instantiate(self.P.classes[cls], [], kw, self.st, self.fr)

    def fake(self, path, **kw):
        o = new_obj("object", None, path=path)
        for k, v in kw.items():
            self.set(o, k, v)
        return o

    def set(self, o, k, v):
        self.st.heap[(o.oid, "a", k)] = v

    def list(self, *items):
        return self.I.new_list(self.st, list(items))

    def dict(self, pairs):
        return self.I.new_dict(self.st, list(pairs))

    def zeros(self, *shape):
        return self.I.call(self.I.ext("numpy.zeros"), [tuple(num(s) for s in shape)], {}, self.st, self.fr)

    def meth(self, o, name):
        return self.I.getattr_(o, name, self.st, self.fr)

    def get(self, o, *names, st=None):
        for n in names:
            o = self.I.getattr_(o, n, st or self.st, self.fr)
        return o

    def run(self, o, name, *args, **kw):
        """Calls a method in place; returns (value, [(pc, exception)])."""
        del self.calls[:]
        fr = Frame(self.fr.module, None, "<top>", None)
        fr.node = None
        v = self.I.call(self.meth(o, name), list(args), kw, self.st, fr)
        return v, [(pc, n) for pc, n, _ in fr.raises if pc is not False]

    def array(self, ref):
        """{key: value} of an array or dict"""
        out = {}
        for k in self.I.dict_keys(self.st, ref):
            v = self.st.heap.get((ref.oid, "k", k))
            if v is not None and v is not MISSING:
                out[_unhk(k)] = v
        return out


def const(v):
    return int(v.const_val()) if isinstance(v, R) and v.is_const() else None


def cell(k):
    """array key -> int or (int, int)"""
    if isinstance(k, tuple):
        return tuple(const(x) for x in k)
    return const(k)
