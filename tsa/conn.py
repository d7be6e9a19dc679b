"""Abstract connection models: the connection under test and a second
connection it may refer to."""
from .interp import new_obj, sym, OBJS, Ref, BoundV, MISSING, _unhk, num
from .model import Model

REFS = ("m_ref", "p_ref", "h_ref", "T_ref", "v_ref")


class ConnModel:
    def __init__(self, P, shared=(), mixing=True, fix=None):
        self.m = m = Model(P, P.classes["Merge"], fix=fix)
        self.c, self.r = m.inl[0], m.inl[1]
        if "m" in shared:
            m.setv(self.r, "m", m.attr(self.c, "m"))
        if "fluid" in shared:
            m.setv(self.r, "fluid", m.attr(self.c, "fluid"))
            m.setv(self.r, "fluid_data", m.attr(self.c, "fluid_data"))
        if not mixing:
            m.setv(self.c, "mixing_rule", None)
            m.setv(self.r, "mixing_rule", None)
        if shared:
            m.register_vars()
        self.refs = {}
        for k in REFS:
            d = m.attr(self.c, k)
            o = new_obj("object", P.classes["Ref"], path=k)
            for a in ("factor", "delta", "delta_SI"):
                m.setv(o, a, sym(k + "." + a))
            m.setv(o, "obj", self.r)
            m.setv(d, "ref", o)
            self.refs[k] = o

    def equations(self):
        m = self.m
        pd = m.attr(self.c, "property_data")
        for cond, k, d in m.I.dict_items(m.st, pd):
            if not isinstance(d, Ref):
                continue
            f = m.attr(d, "func")
            if not isinstance(f, BoundV):
                continue
            kw = {}
            fp = m.attr(d, "func_params")
            if isinstance(fp, Ref):
                for c, kk, vv in m.I.dict_items(m.st, fp):
                    kw[kk] = vv
            yield k, f, m.attr(d, "deriv"), kw, m.attr(d, "num_eq")

    def residual(self, f, kw):
        m = self.m
        _, st, exc = m.run(f, [sym("k")], kw)
        res = m.attr(self.c, "residual")
        out = {}
        for k in st.heap.get((res.oid, "#keys"), ()):
            out[_unhk(k)] = st.heap.get((res.oid, "k", k))
        return out, exc

    def jacobian(self, f, kw):
        m = self.m
        _, st, exc = m.run(f, [sym("k")], kw)
        jac = m.attr(self.c, "jacobian")
        out = {}
        for key in m.I.dict_keys(st, jac):
            v = st.heap.get((jac.oid, "k", key))
            if v is not None:
                out[_unhk(key)] = v
        return out, exc
