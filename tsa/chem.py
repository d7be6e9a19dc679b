"""Facts about the substance names the models use (external library data)."""
import ast

from .dd import OR, apply
from .interp import BuiltinV, num, Maybe, sym
from .poly import R

ALIASES = {
    "O2": ["O2", "oxygen", "Oxygen", "OXYGEN"],
    "CO2": ["CO2", "carbondioxide", "CarbonDioxide", "CARBONDIOXIDE"],
    "H2O": ["H2O", "water", "Water", "WATER", "h2o"],
    "N2": ["N2", "nitrogen", "Nitrogen", "NITROGEN"],
    "CH4": ["CH4", "methane", "Methane", "METHANE"],
    "H2": ["H2", "hydrogen", "Hydrogen", "HYDROGEN"],
    "ethane": ["ethane", "ETHANE", "R170", "n-C2H6"],
    "propane": ["Propane", "propane", "R290", "C3H8", "PROPANE", "n-C3H8"],
    "butane": ["nButane", "butane", "Butane", "BUTANE", "R600", "n-C4H10"],
    "nDodecane": ["nDodecane", "Dodecane", "DODECANE", "n-C12H26"],
}
STRUCTURE = {
    "O2": {"O": 2}, "CO2": {"C": 1, "O": 2}, "H2O": {"H": 2, "O": 1},
    "N2": {"N": 2}, "CH4": {"C": 1, "H": 4}, "H2": {"H": 2},
    "ethane": {"C": 2, "H": 6}, "propane": {"C": 3, "H": 8},
    "butane": {"C": 4, "H": 10}, "nDodecane": {"C": 12, "H": 26},
}


def install(I):
    def aliases(I, args, kwargs, st, fr):
        if isinstance(args[0], str) and args[0] in ALIASES:
            return I.new_list(st, ALIASES[args[0]])
        return NotImplemented

    def alias_in(I, args, kwargs, st, fr, fv):
        f, lst = (list(args) + [kwargs.get("fluid_list")])[:2]
        if not isinstance(f, str) or f not in ALIASES:
            return NotImplemented
        it = I.iterate_value(lst, st)
        if it is None:
            return NotImplemented
        r = False
        for x in it:
            c = True
            if isinstance(x, Maybe):
                c, x = x.k
            if isinstance(x, str) and x in ALIASES[f]:
                r = OR(r, c)
        return r

    def structure(I, args, kwargs, st, fr, fv):
        f = args[0]
        if isinstance(f, str) and f in STRUCTURE:
            return I.new_dict(st, [(k, num(v)) for k, v in STRUCTURE[f].items()])
        return NotImplemented
    I.intrinsics["ext:CoolProp.CoolProp.get_aliases"] = aliases
    I.intrinsics["tespy.tools.helpers.fluidalias_in_list"] = alias_in
    I.intrinsics["tespy.tools.fluid_properties.helpers.fluid_structure"] = structure
    I.no_inline.add("tespy.tools.helpers.newton_with_kwargs")
    I.no_inline.add("tespy.tools.fluid_properties.helpers.darcy_friction_factor")
