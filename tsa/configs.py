"""Model configurations per component class: (tag, keyword arguments)."""
import itertools

ALLVAR = {"re:.*fluid.is_var.*": True, "re:.*fluid.is_set.*": False}
NOVAR = {"re:.*fluid.is_var.*": False, "re:.*fluid.is_set.*": True}


def names(cls):
    return {c.name for c in cls.mro if not isinstance(c, str)}


def configs(cls, thorough=False):
    ns = names(cls)
    if ns & {"Merge", "Separator"}:
        yield "all compositions variable", dict(fix=ALLVAR)
        yield "compositions known", dict(fix=NOVAR)
        yield "3 ports, all variable", dict(fix=ALLVAR, n=3)
        yield "3 ports, known", dict(fix=NOVAR, n=3)
        yield "3 fluids", dict(fix=ALLVAR, fluids=("H2O", "N2", "O2"))
        return
    if "FuelCell" in ns:
        for a in itertools.product([True, False], repeat=3):
            yield "m variable: o2=%s h2=%s water=%s" % a, dict(
                fix=dict(zip(("in2.m.is_var", "in3.m.is_var", "out2.m.is_var"), a)))
        return
    if "WaterElectrolyzer" in ns:
        for a in itertools.product([True, False], repeat=3):
            yield "m variable: water=%s o2=%s h2=%s" % a, dict(
                fix=dict(zip(("in2.m.is_var", "out2.m.is_var", "out3.m.is_var"), a)))
        return
    yield "", {}
    if ns & {"NodeBase", "SubsystemInterface", "Splitter"}:
        yield "3 ports", dict(n=3)
    if "CombustionChamber" in ns:
        yield "fuel H2", dict(fluids=("O2", "CO2", "H2O", "N2", "H2"))
        if thorough:
            yield "fuel ethane", dict(fluids=("O2", "CO2", "H2O", "N2", "ethane"))


def shared(cls, P=None):
    """Connections on different sides of a component that carry one stream:
    the presolver gives them one common mass flow and composition variable."""
    ns = names(cls)
    if "Drum" in ns:
        # the remaining flow then passes from the feed to the steam outlet
        yield "evaporator line closed", dict(extra_alias=(("out1", "in2", "m"), ("in1", "out2", "m")))
        yield "one composition", dict(extra_alias=(("out1", "in2", "m"), ("in1", "out2", "m"), ("out1", "in1", "fluid"), ("out1", "out2", "fluid")))
    if "HeatExchanger" in ns:
        yield "both sides in one line", dict(extra_alias=(("in1", "in2", "m"), ("in1", "out2", "m")))
        yield "sides of one composition", dict(extra_alias=(("in1", "in2", "fluid"), ("in1", "out2", "fluid")))
    if "CombustionEngine" in ns:
        yield "cooling lines in series", dict(extra_alias=(("in1", "in2", "m"), ("in1", "out2", "m")))
        yield "cooled by the combustion air", dict(extra_alias=(("in1", "in3", "m"),))
    if "CombustionChamber" in ns:
        a, b, o = ("in3", "in4", "out3") if "CombustionEngine" in ns else ("in1", "in2", "out1")
        yield "inlets of one composition", dict(extra_alias=((a, b, "fluid"),))
        yield "recirculated flue gas", dict(extra_alias=((o, a, "fluid"),))
    if "WaterElectrolyzer" in ns:
        yield "feed through the cooling line", dict(extra_alias=(("in1", "in2", "m"),), fix={"in1.m.is_var": True, "out2.m.is_var": True, "out3.m.is_var": True})
    if "FuelCell" in ns:
        yield "product water through the cooling line", dict(extra_alias=(("in1", "out2", "m"),), fix={"in1.m.is_var": True, "in2.m.is_var": True, "in3.m.is_var": True})
    if "Merge" in ns:
        yield "inlets of one composition", dict(fix=ALLVAR, n=3, extra_alias=(("in1", "in2", "fluid"),))
        yield "recirculation", dict(fix=ALLVAR, n=3, extra_alias=(("out1", "in2", "fluid"),))
        yield "all of one composition", dict(fix=ALLVAR, extra_alias=(("out1", "in2", "fluid"), ("out1", "in1", "fluid")))
    if "Separator" in ns:
        yield "outlets of one composition", dict(fix=ALLVAR, n=3, extra_alias=(("out1", "out2", "fluid"),))
        yield "recirculation", dict(fix=ALLVAR, n=3, extra_alias=(("in1", "out2", "fluid"),))


def chars(cls, P):
    """Characteristics linked to every expression a user may choose."""
    from .model import Model
    m = Model(P, cls)
    own = []
    for k in m.param_names:
        d = m.param(k)
        if m.I._has(d, "char_params", m.st) and isinstance(m.st.heap.get((d.oid, "a", "param")), str):
            own.append(k)
    if not own:
        return
    for par in ("m", "m_out", "v", "pr"):
        for kind in ("rel", "abs"):
            kw = dict(preset={k: (par, kind) for k in own})
            if names(cls) & {"WaterElectrolyzer", "FuelCell"}:
                kw["fix"] = {"re:(in|out).\\.m\\.is_var": True}
            yield "characteristics of %s %s" % (kind, par), kw
