"""Abstract interpreter: flow-sensitive, interprocedural value analysis.

Every function body is analysed once per call context; control flow joins
merge states into gated values (dd.ite); calls are resolved through the class
hierarchy and analysed in place; loops over statically known collections are
unrolled, other loops havoc what they assign.  Nothing of the analysed
program is ever executed and no path is enumerated.
"""
import ast
from math import isqrt
import builtins
from fractions import Fraction

from . import dd
from . import limits
from .limits import tick
from .dd import DD, batom, lit, ite, apply, NOT, AND, OR, restrict, literals
from .poly import R, atom, ZERO, ONE, Blowup, diff, map_atoms
from .program import ClassInfo, decorator_names


class Ref:
    __slots__ = ("oid",)
    _t = {}

    def __new__(cls, oid):
        r = cls._t.get(oid)
        if r is None:
            r = object.__new__(cls)
            r.oid = oid
            cls._t[oid] = r
        return r

    def __repr__(self):
        o = OBJS.get(self.oid)
        return "<%s>" % (o.path or "%s#%d" % (o.kind, self.oid)) if o else "<ref>"


OBJS = {}


class HObj:
    __slots__ = ("oid", "kind", "cls", "path", "lazy", "universe", "extra", "factory")


def new_obj(kind, cls=None, path=None, lazy=None, universe=None):
    o = HObj()
    o.oid = len(OBJS) + 1
    o.kind, o.cls, o.path, o.lazy, o.universe = kind, cls, path, lazy, universe
    o.extra = None
    o.factory = None
    OBJS[o.oid] = o
    return Ref(o.oid)


class _Val:
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return type(self) is type(o) and self.k == o.k

    def __hash__(self):
        return hash((type(self).__name__, self.k))

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.k)


class FuncV(_Val):
    """k = (node, module, owner ClassInfo|None, closure key)"""
    def __repr__(self):
        n = self.k[0]
        return "fn:" + getattr(n, "name", "<lambda>")

    def __eq__(self, o):
        return type(self) is type(o) and self.k[0] is o.k[0] and self.k[3] == o.k[3]

    def __hash__(self):
        return hash((id(self.k[0]), self.k[3]))


class BoundV(_Val):
    """(FuncV, self value)"""


class ClassV(_Val):
    pass


class ModV(_Val):
    pass


class ExtV(_Val):
    def __repr__(self):
        return self.k[0]


class BuiltinV(_Val):
    pass


class MethV(_Val):
    """(obj, name) builtin method"""


class DictView(_Val):
    pass


class SuperV(_Val):
    pass


class PartialV(_Val):
    pass


class Sent:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


MISSING = Sent("MISSING")
UNDEF = Sent("UNDEF")


class Maybe(_Val):
    """conditional list item (cond, value)"""


class SliceV(_Val):
    pass


class State:
    __slots__ = ("locals", "heap", "pc", "assume")

    def __init__(self, locals_, heap, pc=True, assume=None):
        self.locals, self.heap, self.pc = locals_, heap, pc
        self.assume = assume or {}

    def copy(self):
        return State(dict(self.locals), dict(self.heap), self.pc, dict(self.assume))

    def become(self, o):
        self.locals, self.heap, self.pc, self.assume = o.locals, o.heap, o.pc, o.assume


class Frame:
    def __init__(self, module, owner, name, closure, selfv=None):
        self.module, self.owner, self.name, self.closure = module, owner, name, closure
        self.returns, self.raises = [], []
        self.loops = []
        self.selfv = selfv
        self.nonlocal_ = set()


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


CLOSURES = {}


def num(c):
    return R.const(c)


def sym(path):
    return R.of(atom("sym", path))


_unk = [0]


def is_num(v):
    return isinstance(v, R)


BUILTIN_NAMES = set(dir(builtins))

PURE_MATH = {
    "numpy.log": "log", "math.log": "log", "numpy.exp": "exp",
    "math.exp": "exp", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt",
    "numpy.abs": "abs", "numpy.absolute": "abs", "math.fabs": "abs",
    "numpy.sin": "sin", "numpy.cos": "cos", "math.sin": "sin",
    "math.cos": "cos", "numpy.tan": "tan", "math.tan": "tan",
    "math.log10": "log10", "numpy.log10": "log10", "numpy.log2": "log2",
    "numpy.arccos": "acos", "numpy.arcsin": "asin", "numpy.deg2rad": "deg2rad",
}

PROP_MOD = "tespy.tools.fluid_properties.functions"
DERIV_TABLE = {
    "dT_mix_dph": ("T_mix_ph", 0), "dT_mix_pdh": ("T_mix_ph", 1),
    "dT_sat_dp": ("T_sat_p", 0), "dh_mix_dpQ": ("h_mix_pQ", 0),
    "dv_mix_dph": ("v_mix_ph", 0), "dv_mix_pdh": ("v_mix_ph", 1),
}


NPARR = ("numpy.array", "numpy.asarray", "numpy.ones", "numpy.searchsorted", "numpy.append", "numpy.absolute", "numpy.interp",
         "numpy.clip", "numpy.cumsum", "numpy.diff", "numpy.concatenate", "numpy.sort", "numpy.zeros")
NANR = sym("nan")
REFLECTED = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
CMPDUNDER = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.BitAnd: "and", ast.BitOr: "or"}


OPERATORS = {"operator.mul": ast.Mult, "operator.add": ast.Add, "operator.sub": ast.Sub, "operator.truediv": ast.Div, "operator.or_": ast.BitOr, "operator.and_": ast.BitAnd, "operator.pow": ast.Pow,
             "operator.iadd": ast.Add}
COMPARES = {"operator.lt": ast.Lt, "operator.gt": ast.Gt, "operator.le": ast.LtE, "operator.ge": ast.GtE, "operator.eq": ast.Eq, "operator.ne": ast.NotEq, "operator.is_": ast.Is}


def _all(conds):
    r = True
    for c in conds:
        r = AND(r, c)
    return r


_NODES = {}


def _scan(node):
    """(contains yield, nonlocal names) of a function, without nested ones"""
    if node not in _NODES:
        gen, names = False, []
        todo = [] if isinstance(node, ast.Lambda) else list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
            if isinstance(n, ast.Nonlocal):
                names += n.names
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += list(ast.iter_child_nodes(n))
        _NODES[node] = gen, tuple(names)
    return _NODES[node]


def _generator(node):
    return _scan(node)[0]


def _nonlocals(node):
    return _scan(node)[1]


def _percent(text, vals):
    """parts of a text formatted with %, None if a format is not modelled"""
    out, i, n = [], 0, 0
    while i < len(text):
        if text[i] != "%":
            j = text.find("%", i)
            j = len(text) if j < 0 else j
            out.append(text[i:j])
            i = j
            continue
        k = text[i + 1:i + 2]
        if k == "%":
            out.append("%")
        elif k in ("s", "d") and n < len(vals) and isinstance(vals[n], (str, R)) and (k == "s" or isinstance(vals[n], R)):
            out.append(vals[n])
            n += 1
        else:
            return None
        i += 2
    return out if n == len(vals) else None


def _format(text, args, kwargs):
    import string
    out, auto = [], 0
    try:
        for lit_, field, spec, conv in string.Formatter().parse(text):
            if lit_:
                out.append(lit_)
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                return None
            if field == "":
                field, auto = str(auto), auto + 1
            v = args[int(field)] if field.isdigit() else kwargs[field]
            if not isinstance(v, (str, R, bool, DD)) and v is not None:
                return None
            out.append(v)
    except (ValueError, KeyError, IndexError):
        return None
    return out


def _sortkey(I, k, st):
    """Python value with the order of an abstract one, None if unknown"""
    if isinstance(k, R) and k.is_const():
        return k.const_val()
    if isinstance(k, (bool, str)):
        return k
    if isinstance(k, Ref) and OBJS[k.oid].kind == "list":
        k = st.heap.get((k.oid, "#"))
    if isinstance(k, tuple):
        r = [_sortkey(I, x, st) for x in k]
        return None if any(x is None for x in r) else tuple(r)
    return None


class Interp:
    def __init__(self, program, opaque_props=True):
        self.P = program
        self.opaque_props = opaque_props
        self.depth = 0
        self.frames = []
        self.opaque_exc = False
        self.unroll = 0
        self.axioms = {}
        self.registries = {}
        # distinct(name1, name2): two symbols known to differ
        self.distinct = None
        self.log = []            # notes on unmodelled constructs
        self.trace_calls = None  # optional callback(name, args, kwargs, st)
        self.intrinsics = {}
        self.gcache = {}
        self.calls_seen = 0
        self.funcs_seen = set()
        self.write_hook = None
        self.stmt_count = 0
        self.heap0 = {}
        self.no_inline = set()
        self.on_write = None
        self.const_syms = {}

    # ---------------------------------------------------------------- util
    def note(self, why):
        """an effect the interpreter does not model"""
        self.log.append(why)
        limits.unknown.append(why)

    def unk(self, why):
        _unk[0] += 1
        self.log.append(why)
        limits.unknown.append(str(why))
        return R.of(atom("unk", why, _unk[0]))

    def B(self, kind, *args):
        r = lit(batom(kind, *args))
        if self.axioms:
            r = restrict(r, self.axioms)
        return r

    # ---------------------------------------------------------------- heap
    def attr_default(self, oid, name, st=None):
        o = OBJS[oid]
        if o.lazy is not None and o.kind not in ("symdict", "symset"):
            v = o.lazy(o, name)
            if v is not UNDEF:
                return v
        return UNDEF

    def key_default(self, oid, key):
        o = OBJS[oid]
        if o.kind == "symdict" or o.kind == "symset":
            v = o.lazy(o, key)
            return v
        if o.kind == "array0":
            return ZERO
        return MISSING

    def heap_default(self, hk):
        if hk[1] == "a":
            return self.attr_default(hk[0], hk[2])
        if hk[1] == "k":
            return self.key_default(hk[0], hk[2])
        return UNDEF

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h1)
        for k, v in h2.items():
            if k not in h1:
                if k[1] == "#keys" or k[1] == "#":
                    out[k] = v
                    continue
                d = self.heap_default(k)
                out[k] = self._ite(c, d, v)
            else:
                w = h1[k]
                if w is v or dd.leq(w, v):
                    continue
                if k[1] == "#keys":
                    out[k] = w + tuple(x for x in v if x not in w)
                else:
                    out[k] = self._ite(c, w, v)
        for k, v in h1.items():
            if k not in h2 and k[1] not in ("#keys", "#"):
                d = self.heap_default(k)
                out[k] = self._ite(c, v, d)
        return out

    def _ite(self, c, a, b):
        try:
            return ite(c, a, b)
        except Blowup:
            return self.unk("blowup")

    def merge_locals(self, c, l1, l2):
        out = {}
        for k in l1.keys() | l2.keys():
            out[k] = self._ite(c, l1.get(k, UNDEF), l2.get(k, UNDEF))
        return out

    def merge(self, c, s1, s2):
        """s1 under c, s2 under not c (either may be None)."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        return State(self.merge_locals(c, s1.locals, s2.locals),
                     self.merge_heap(c, s1.heap, s2.heap),
                     OR(s1.pc, s2.pc), assume)

    def registry(self, module, name, st, fr):
        """A class registry: the decorator function is interpreted on every
        class it decorates."""
        m = self.P.modules[module]
        fv = FuncV(m.defs[name][1], m, None, None)
        d = self.registries[(module, name)] = self.new_dict(st, [])
        for c in self.P.classes.values():
            if name in [x.split(".")[-1] for x in decorator_names(c.node)]:
                self.call(fv, [ClassV(c)], {}, st, fr)
        return d

    # lists -----------------------------------------------------------
    def clone(self, v, st, fr, deep, memo):
        """copy.copy and copy.deepcopy"""
        if not isinstance(v, Ref):
            if isinstance(v, tuple) and deep:
                return tuple(self.clone(x, st, fr, deep, memo) for x in v)
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = OBJS[v.oid]
        if o.kind in ("dict", "list", "set"):
            r = self.method(v, "copy", [], {}, st, fr)
            memo[v.oid] = r
            if deep and o.kind == "list":
                st.heap[(r.oid, "#")] = tuple(self.clone(x, st, fr, deep, memo) if isinstance(x, (Ref, tuple)) else x for x in st.heap[(r.oid, "#")])
            elif deep and o.kind == "dict":
                for k in self.dict_keys(st, r):
                    x = st.heap.get((r.oid, "k", k))
                    if isinstance(x, (Ref, tuple)):
                        st.heap[(r.oid, "k", k)] = self.clone(x, st, fr, deep, memo)
            return r
        if o.kind == "object" and o.cls is not None:
            r = new_obj("object", o.cls, path=o.path)
            memo[v.oid] = r
            for k in [k for k in st.heap if k[0] == v.oid]:
                x = st.heap[k]
                st.heap[(r.oid,) + k[1:]] = self.clone(x, st, fr, deep, memo) if deep and isinstance(x, (Ref, tuple)) and k[1] == "a" else x
            return r
        return v

    def new_list(self, st, items, kind="list"):
        r = new_obj(kind)
        st.heap[(r.oid, "#")] = tuple(items)
        return r

    def new_dict(self, st, pairs):
        r = new_obj("dict")
        st.heap[(r.oid, "#keys")] = ()
        for k, v in pairs:
            self.dict_set(st, r, k, v)
        return r

    def new_set(self, st, elems):
        r = new_obj("set")
        st.heap[(r.oid, "#keys")] = ()
        for e in elems:
            c = True
            if isinstance(e, Maybe):
                c, e = e.k
            self.set_add(st, r, e, c)
        return r

    def dict_keys(self, st, r):
        o = OBJS[r.oid]
        ks = st.heap.get((r.oid, "#keys"), ())
        if o.universe is not None:
            ks = tuple(o.universe) + tuple(k for k in ks if k not in o.universe)
        return ks

    def dict_get(self, st, r, key):
        return self.dict_get_hk(st, r, _hk(key))

    def dict_get_hk(self, st, r, hk):
        v = st.heap.get((r.oid, "k", hk), UNDEF)
        if v is UNDEF:
            v = self.key_default(r.oid, hk)
        return v

    def dict_set(self, st, r, key, v):
        hk = (r.oid, "k", _hk(key))
        ks = st.heap.get((r.oid, "#keys"), ())
        if _hk(key) not in ks:
            st.heap[(r.oid, "#keys")] = ks + (_hk(key),)
        st.heap[hk] = v
        if self.write_hook:
            self.write_hook("item", r, key, v, st)

    def set_add(self, st, r, e, cond=True):
        cur = self.dict_get(st, r, e)
        if cur is MISSING:
            cur = False
        self.dict_set(st, r, e, OR(cond, cur))

    def set_items(self, st, r):
        out = []
        for k in self.dict_keys(st, r):
            m = self.dict_get_hk(st, r, k)
            m = apply(lambda x: False if x is MISSING else x, m)
            m = restrict(m, st.assume)
            if m is False:
                continue
            v = _unhk(k)
            out.append(v if m is True else Maybe(m, v))
        return out

    def dict_items(self, st, r):
        """list of (cond, key, value)"""
        out = []
        for k in self.dict_keys(st, r):
            v = restrict(self.dict_get_hk(st, r, k), st.assume)
            c = apply(lambda x: x is not MISSING, v)
            if c is False:
                continue
            if c is not True:
                v = self._strip_missing(v)
            out.append((c, _unhk(k), v))
        return out

    def _strip_missing(self, v):
        good = [l for _, l in dd.leaves(v) if l is not MISSING]
        if not good:
            return MISSING
        g = good[0]
        return apply(lambda x: g if x is MISSING else x, v)

    # iteration ---------------------------------------------------------
    def iterate(self, v, st):
        """-> list of values / Maybe, or None if unknown."""
        v = restrict(v, st.assume)
        if isinstance(v, DD):
            # merge element wise
            parts = []
            for path, leaf in dd.leaves(v):
                it = self.iterate(leaf, st)
                if it is None:
                    return None
                cond = True
                for var, b in path:
                    l = dd.node(var, True, False)
                    cond = AND(cond, l if b else NOT(l))
                parts.append((cond, it))
            n = min(len(p) for _, p in parts)
            out = []
            # common prefix handling: same item in all alternatives
            i = 0
            while i < n and all(dd.leq(parts[0][1][i], p[i]) for _, p in parts):
                out.append(parts[0][1][i])
                i += 1
            for cond, p in parts:
                for x in p[i:]:
                    if isinstance(x, Maybe):
                        out.append(Maybe(AND(cond, x.k[0]), x.k[1]))
                    else:
                        out.append(Maybe(cond, x))
            return out
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            o = OBJS[v.oid]
            if o.kind in ("list", "deque"):
                c = st.heap.get((v.oid, "#"))
                if isinstance(c, DD):
                    return self.iterate(c, st)
                if isinstance(c, tuple):
                    return list(c)
                return None
            if o.kind in ("dict", "symdict"):
                out = []
                for c, k, _ in self.dict_items(st, v):
                    out.append(k if c is True else Maybe(c, k))
                return out
            if o.kind in ("set", "symset"):
                return self.set_items(st, v)
            f = self.dunder(v, "__iter__")
            if f is not None:
                return self.iterate(self.call(f, [], {}, st, self.frames[-1] if self.frames else None), st)
        return None

    def dunder(self, o, name):
        """special method of an object whose class defines it"""
        if isinstance(o, Ref):
            c = OBJS[o.oid].cls
            if c is not None:
                f = c.find(name)
                if f:
                    return BoundV(FuncV(f[1], f[0].module, f[0], None), o)
        return None

    # ---------------------------------------------------------------- names
    def lookup(self, name, st, fr):
        if name in st.locals:
            v = st.locals[name]
            if v is UNDEF:
                return self.unk("undef local " + name)
            return v
        if fr.closure is not None:
            c = CLOSURES.get(fr.closure)
            while c is not None:
                if name in c[0]:
                    return c[0][name]
                c = CLOSURES.get(c[1]) if c[1] is not None else None
        return self.global_name(fr.module, name, st)

    def global_name(self, module, name, st):
        r = self.P.resolve(module.name, name)
        if r is None:
            if name in BUILTIN_NAMES:
                return BuiltinV(name)
            return ExtV(module.name + "." + name)
        return self.from_resolved(r, st)

    def from_resolved(self, r, st):
        if r[0] == "func":
            return FuncV(r[2], r[1], None, None)
        if r[0] == "class":
            return ClassV(r[1])
        if r[0] == "module":
            return ModV(r[1])
        if r[0] == "ext":
            return self.ext(r[1])
        if r[0] == "assign":
            key = (r[1].name, r[3])
            if key in self.gcache:
                ref, snap = self.gcache[key]
                for k, v in snap.items():
                    st.heap.setdefault(k, v)
                return ref
            fr = Frame(r[1], None, "<module>", None)
            s = State({}, {}, True)
            v = self.eval(r[2], s, fr)
            # follow later top level item stores: NAME[...] = value / NAME.attr = value
            for stm in r[1].tree.body:
                if isinstance(stm, ast.Assign) and len(stm.targets) == 1:
                    t = stm.targets[0]
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == r[3]:
                        try:
                            s.locals[r[3]] = v
                            self.assign(t, self.eval(stm.value, s, fr), s, fr)
                        except Exception:
                            pass
            self.gcache[key] = (v, s.heap)
            for k, x in s.heap.items():
                st.heap.setdefault(k, x)
            return v
        return self.unk("resolve")

    def ext(self, dotted):
        if dotted in ("numpy.nan", "math.nan", "numpy.NaN"):
            return sym("nan")
        if dotted in ("math.pi", "numpy.pi"):
            return sym("pi")
        if dotted in ("math.inf", "numpy.inf"):
            return sym("inf")
        return ExtV(dotted)

    # ---------------------------------------------------------------- attr
    def getattr_(self, v, name, st, fr=None):
        v = restrict(v, st.assume)
        if isinstance(v, DD):
            return self.split(v, st, lambda x, s: self.getattr_(x, name, s, fr))
        if isinstance(v, Ref):
            return self.obj_getattr(v, name, st, fr)
        if isinstance(v, R):
            if self._is_sym(v, "nan"):
                return sym("nan")
            if name in ("values",) and False:
                return v
            return R.of(atom("attr", v, name))
        if isinstance(v, ModV):
            r = self.P.resolve(v.k[0], name)
            if r is None:
                return self.ext(v.k[0] + "." + name)
            return self.from_resolved(r, st)
        if isinstance(v, ExtV):
            return self.ext(v.k[0] + "." + name)
        if isinstance(v, ClassV):
            c = v.k[0]
            if name == "__name__":
                return c.name
            f = c.find(name)
            if f:
                fv = FuncV(f[1], f[0].module, f[0], None)
                if "classmethod" in decorator_names(f[1]):
                    return BoundV(fv, v)
                return fv
            a = c.find_assign(name)
            if a:
                return self.class_attr(a, name, st)
            return ExtV(c.qname + "." + name)
        if isinstance(v, SuperV):
            cls, after, selfv = v.k
            f = cls.find(name, after=after)
            if f:
                decs = decorator_names(f[1])
                fv = FuncV(f[1], f[0].module, f[0], None)
                if "staticmethod" in decs:
                    return fv
                if "property" in decs:
                    return self.call(BoundV(fv, selfv), [], {}, st, fr)
                return BoundV(fv, selfv)
            return ExtV("super." + name)
        if isinstance(v, (str, tuple, MethV, DictView)) or v is None:
            return MethV(v, name)
        if isinstance(v, FuncV):
            if name == "items":
                reg = self.registries.get((v.k[1].name, getattr(v.k[0], "name", None)))
                if reg is not None:
                    return reg
            r = R.of(atom("attr", sym("func:" + getattr(v.k[0], "name", "lambda")), name))
            return r
        if isinstance(v, BoundV):
            if name == "__self__":
                return v.k[1]
            if name == "__name__":
                return v.k[0].k[0].name
        if isinstance(v, bool):
            return MethV(v, name)
        if isinstance(v, BuiltinV) and v.k[0] == "dict" and name == "fromkeys":
            return MethV(v, name)
        return self.unk("getattr %s on %r" % (name, type(v).__name__))

    def _is_sym(self, v, s):
        a = v.as_atom()
        return a is not None and a.kind == "sym" and a.args[0] == s

    def obj_getattr(self, v, name, st, fr=None):
        o = OBJS[v.oid]
        x = st.heap.get((v.oid, "a", name), UNDEF)
        if isinstance(x, DD):
            x = restrict(x, st.assume)
        if x is UNDEF:
            x = self.attr_default(v.oid, name, st)
        if isinstance(x, DD):
            return x
        if x is not UNDEF:
            return x
        if name == "__dict__":
            return DictView(v)
        if name == "__class__":
            return ClassV(o.cls) if o.cls is not None else ExtV("class")
        if o.cls is not None:
            f = o.cls.find(name)
            if f:
                decs = decorator_names(f[1])
                fv = FuncV(f[1], f[0].module, f[0], None)
                if "staticmethod" in decs:
                    return fv
                if "property" in decs or "cached_property" in decs:
                    return self.call(BoundV(fv, v), [], {}, st, fr)
                if "classmethod" in decs:
                    return BoundV(fv, ClassV(o.cls))
                return BoundV(fv, v)
            a = o.cls.find_assign(name)
            if a:
                return self.class_attr(a, name, st)
        if o.kind in ("list", "dict", "set", "symset", "symdict", "array0", "deque"):
            return MethV(v, name)
        base = o.path or ("obj%d" % v.oid)
        return R.of(atom("attr", sym(base), name))

    def class_attr(self, a, name, st):
        """an object assigned in a class body is one for all"""
        return self.once(("classattr", a[0].module.name, a[0].name, name), a[1], Frame(a[0].module, None, "<class>", None), st)

    def once(self, key, node, fr, st):
        """value of an expression evaluated once in a program (class bodies,
        defaults of parameters)"""
        if key in self.gcache:
            ref, snap = self.gcache[key]
            for k, v in snap.items():
                st.heap.setdefault(k, v)
            return ref
        s2 = State({}, {}, True)
        v = self.eval(node, s2, fr)
        self.gcache[key] = (v, s2.heap)
        for k, x in s2.heap.items():
            st.heap.setdefault(k, x)
        return v

    def setattr_(self, v, name, val, st, fr=None):
        v = restrict(v, st.assume)
        if isinstance(v, DD):
            for cond, leaf in self.cases(v):
                s = st
                if isinstance(leaf, Ref):
                    old = self.obj_getattr(leaf, name, st, fr) if self._has(leaf, name, st) else UNDEF
                    self._store(st, leaf, name, self._ite(cond, val, old))
            return
        if isinstance(v, Ref):
            o = OBJS[v.oid]
            if o.cls is not None:
                f = o.cls.find(name + "__setter")
                if f:
                    self.call(BoundV(FuncV(f[1], f[0].module, f[0], None), v), [val], {}, st, fr)
                    return
            self._store(st, v, name, val)
            return
        if isinstance(v, R):
            self.note("store to opaque %r.%s" % (v, name))
            if self.write_hook:
                self.write_hook("opaque", v, name, val, st)
            return
        if isinstance(v, (ExtV, FuncV, ClassV, ModV)):
            return

    def _has(self, r, name, st):
        return (r.oid, "a", name) in st.heap or self.attr_default(r.oid, name) is not UNDEF

    def _store(self, st, ref, name, val):
        st.heap[(ref.oid, "a", name)] = val
        if self.write_hook:
            self.write_hook("attr", ref, name, val, st)

    def cases(self, v):
        """[(cond, leaf)] with merged identical leaves."""
        out = {}
        order = []
        for path, leaf in dd.leaves(v):
            cond = True
            for var, b in path:
                l = dd.node(var, True, False)
                cond = AND(cond, l if b else NOT(l))
            k = dd.lkey(leaf)
            if k in out:
                out[k] = (OR(out[k][0], cond), leaf)
            else:
                out[k] = (cond, leaf)
                order.append(k)
        return [out[k] for k in order]

    def split(self, v, st, fn):
        """Evaluate fn on every leaf of v with a state restricted to it."""
        cs = self.cases(v)
        if len(cs) > 24:
            return self.unk("too many cases")
        res = None
        final = None
        for cond, leaf in reversed(cs):
            s = st.copy()
            s.assume.update(literals(cond))
            s.pc = AND(s.pc, cond)
            val = fn(leaf, s)
            if res is None:
                res, final = val, s
            else:
                res = self._ite(cond, val, res)
                final = self.merge(cond, s, final)
        pc, assume = st.pc, st.assume
        st.heap, st.locals = final.heap, final.locals
        st.pc = final.pc
        return res

    # ---------------------------------------------------------------- truth
    def truth(self, v, st):
        v = restrict(v, st.assume)
        if isinstance(v, DD):
            return apply(lambda x: self._truth(x, st), v)
        return self._truth(v, st)

    def _truth(self, v, st):
        if isinstance(v, bool):
            return v
        if v is None or v is MISSING or v is UNDEF:
            return False
        if isinstance(v, R):
            if v.is_const():
                return v.const_val() != 0
            return self.B("truthy", v)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, Ref):
            o = OBJS[v.oid]
            if o.kind in ("list", "dict", "set", "symset", "symdict", "deque"):
                it = self.iterate(v, st)
                if it is None:
                    return self.B("nonempty", sym("obj%d" % v.oid))
                c = False
                for x in it:
                    if isinstance(x, Maybe):
                        c = OR(c, x.k[0])
                    else:
                        return True
                return c
            return True
        return True

    # ---------------------------------------------------------------- exec
    def block(self, stmts, st, fr):
        for s in stmts:
            st = self.stmt(s, st, fr)
            if st is None:
                return None
        return st

    def stmt(self, s, st, fr):
        self.stmt_count += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("stmt " + type(s).__name__)
            return st
        r = m(s, st, fr)
        if r is not None and r.pc is False:
            return None
        return r

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for al in s.names:
            if al.asname:
                st.locals[al.asname] = ModV(al.name) if al.name in self.P.modules else ExtV(al.name)
            else:
                n = al.name.split(".")[0]
                st.locals[n] = ModV(n) if n in self.P.modules else ExtV(n)
        return st

    def s_ImportFrom(self, s, st, fr):
        base = s.module or ""
        for al in s.names:
            r = self.P.resolve(base, al.name)
            st.locals[al.asname or al.name] = (
                self.from_resolved(r, st) if r else ExtV(base + "." + al.name))
        return st

    def s_Global(self, s, st, fr):
        return st

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, fr):
        key = len(CLOSURES) + 1
        loc = dict(st.locals)
        CLOSURES[key] = (loc, fr.closure, fr)
        f = FuncV(s, fr.module, fr.owner, key)
        loc[s.name] = f
        st.locals[s.name] = f
        return st

    def s_ClassDef(self, s, st, fr):
        st.locals[s.name] = self.unk("local class")
        return st

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else None
        if st.pc is False:
            return None
        fr.returns.append((st.pc, v, st))
        return None

    def s_Raise(self, s, st, fr):
        exc = None
        if s.exc is None and getattr(fr, "handling", None):
            self.do_raise(fr.handling[-1], st, fr)
            return None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.eval(e.func, st, fr)
                for a in e.args:
                    self.eval(a, st, fr)
                exc = f
            else:
                exc = self.eval(e, st, fr)
        self.do_raise(exc_name(exc), st, fr)
        return None

    def do_raise(self, name, st, fr):
        fr.raises.append((st.pc, name, st))

    def s_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        if c is True:
            return st
        s2 = st.copy()
        s2.pc = AND(st.pc, NOT(c))
        if s2.pc is not False:
            fr.raises.append((s2.pc, "AssertionError", s2))
        st.pc = AND(st.pc, c)
        st.assume.update(literals(c))
        return st if st.pc is not False else None

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        load = _as_load(s.target)
        cur = self.eval(load, st, fr)
        v = self.eval(s.value, st, fr)
        if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and OBJS[cur.oid].kind in ("list", "deque"):
            it = self.iterate(v, st)
            if it is not None:
                c = st.heap[(cur.oid, "#")]
                if isinstance(c, tuple):
                    st.heap[(cur.oid, "#")] = c + tuple(it)
                else:
                    st.heap[(cur.oid, "#")] = apply(
                        lambda x: x + tuple(it) if isinstance(x, tuple) else x, c)
                if self.write_hook:
                    self.write_hook("listext", cur, None, v, st)
                return st
        if isinstance(cur, Ref) and OBJS[cur.oid].kind in ("set", "symset", "dict") and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)):
            if OBJS[cur.oid].kind == "dict":
                if isinstance(s.op, ast.BitOr) and self.dict_update(st, cur, v):
                    return st
            else:
                nm = {ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update", ast.BitXor: "symmetric_difference_update"}
                self.method(cur, nm[type(s.op)], [v], {}, st, fr)
                return st
        if isinstance(cur, (Ref, DD)) and type(s.op) in DUNDER:
            nm = "__i%s__" % DUNDER[type(s.op)]
            f = self.dunder(cur, nm)
            if f is not None:
                r = self.call(f, [v], {}, st, fr)
                self.assign(s.target, r, st, fr)
                return st
            if isinstance(cur, DD) and any(self.dunder(l, nm) is not None for l in dd.terminals(cur)):
                self.note("in-place operation on one of several arrays")
        r = self.binop(s.op, cur, v, st, fr)
        self.assign(s.target, r, st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, st, fr), t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st, fr)
            key = self.eval(t.slice, st, fr)
            self.setitem(obj, key, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = restrict(v, st.assume)
            if isinstance(v, DD):
                lens = {len(l) for l in dd.terminals(v) if isinstance(l, tuple)}
                if len(lens) == 1 and all(isinstance(l, tuple) for l in dd.terminals(v)):
                    n = lens.pop()
                    items = [apply(lambda x, i=i: x[i], v) for i in range(n)]
                else:
                    items = None
            else:
                items = self.iterate(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is None or any(isinstance(i, Maybe) for i in items) or (not star and len(items) != len(t.elts)):
                for i, e in enumerate(t.elts):
                    if isinstance(v, R):
                        self.assign(e, R.of(atom("item", v, num(i))), st, fr)
                    else:
                        self.assign(e, self.unk("unpack"), st, fr)
                return
            if star:
                i = star[0]
                k = len(t.elts) - 1
                self_items = items[:i] + [self.new_list(st, items[i:len(items) - (k - i)])] + items[len(items) - (k - i):]
                for e, x in zip(t.elts, self_items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def setitem(self, obj, key, v, st, fr):
        obj = restrict(obj, st.assume)
        if isinstance(obj, DD):
            for cond, leaf in self.cases(obj):
                if isinstance(leaf, Ref):
                    self._setitem(leaf, key, v, st, cond)
            return
        if isinstance(obj, DictView):
            if isinstance(key, str):
                self._store(st, obj.k[0], key, v)
            return
        if isinstance(obj, R):
            if self.write_hook:
                self.write_hook("opaqueitem", obj, key, v, st)
            self.note("item store on opaque %r" % (obj,))
            return
        if isinstance(obj, Ref):
            f = self.dunder(obj, "__setitem__")
            if f is not None:
                self.call(f, [key, v], {}, st, fr)
                return
            self._setitem(obj, key, v, st, True)

    def _setitem(self, ref, key, v, st, cond):
        key = restrict(key, st.assume)
        if isinstance(key, DD):
            for c, k in self.cases(key):
                self._setitem(ref, k, v, st, AND(cond, c))
            return
        o = OBJS[ref.oid]
        if o.kind in ("list", "deque"):
            c = st.heap.get((ref.oid, "#"))
            if isinstance(c, tuple) and isinstance(key, R) and key.is_const():
                i = int(key.const_val())
                if -len(c) <= i < len(c):
                    i %= len(c)
                    st.heap[(ref.oid, "#")] = c[:i] + (self._ite(cond, v, c[i]),) + c[i + 1:]
                    if self.write_hook:
                        self.write_hook("item", ref, key, v, st)
                    return
            if isinstance(key, SliceV) and isinstance(c, tuple):
                it = self.iterate(v, st)
                b = [x.const_val() if isinstance(x, R) and x.is_const() else x for x in key.k]
                if it is not None and cond is True and all(x is None or not isinstance(x, (R, DD)) and x == int(x) for x in b):
                    l = list(c)
                    l[slice(*[None if x is None else int(x) for x in b])] = it
                    st.heap[(ref.oid, "#")] = tuple(l)
                    return
            st.heap[(ref.oid, "#")] = self.unk("list store")
            return
        if o.kind == "array0":
            ex = self._expand(key, v, st, o.extra)
            if ex is not None:
                for kk, vv in ex:
                    if cond is not True:
                        vv = self._ite(cond, vv, self.dict_get(st, ref, kk))
                    self.dict_set(st, ref, kk, vv)
                    if self.write_hook:
                        self.write_hook("array", ref, kk, vv, st)
                return
        if o.kind in ("dict", "symdict", "array0", "set", "symset"):
            if isinstance(key, SliceV):
                if self.write_hook:
                    self.write_hook("slice", ref, key, v, st)
                key = ("slice",) + tuple(key.k)
            if cond is not True:
                old = self.dict_get(st, ref, key)
                v = self._ite(cond, v, old)
            self.dict_set(st, ref, key, v)
            return
        self.note("item store on object %s" % o.kind)

    def _ints(self, k, st, n=None):
        """Integer positions denoted by an index of an array, or None."""
        if isinstance(k, R) and k.is_const() and k.const_val().denominator == 1:
            return int(k.const_val())
        if isinstance(k, SliceV):
            b = []
            for x in k.k:
                if x is None:
                    b.append(None)
                elif isinstance(x, R) and x.is_const() and x.const_val().denominator == 1:
                    b.append(int(x.const_val()))
                else:
                    return None
            if b[1] is None or b[1] < 0 or (b[0] or 0) < 0:
                if n is None:
                    return None
                return list(range(n))[slice(*b)]
            return list(range(*slice(*b).indices(b[1] if n is None else n)))
        if isinstance(k, (tuple, Ref)):
            it = self.iterate(k, st)
            if it is None:
                return None
            out = [self._ints(x, st) for x in it]
            if any(not isinstance(x, int) for x in out):
                return None
            return out
        return None

    def _expand(self, key, v, st, shape=None):
        """Stores an array store by slice or by index lists consists of:
        [(key, value)], or None when the positions are not known."""
        n0 = shape[0] if shape else None
        if isinstance(key, tuple) and len(key) == 2:
            a = self._ints(key[0], st, n0)
            b = self._ints(key[1], st, shape[1] if shape and len(shape) > 1 else None)
            if a is None or b is None or (isinstance(a, int) and isinstance(b, int)):
                return None
            if isinstance(key[0], SliceV) or isinstance(key[1], SliceV):
                return None
            if isinstance(a, int):
                a = [a] * len(b)
            if isinstance(b, int):
                b = [b] * len(a)
            if len(a) != len(b):
                return None
            keys = [(num(x), num(y)) for x, y in zip(a, b)]
        else:
            a = self._ints(key, st, n0)
            if not isinstance(a, list):
                return None
            keys = [num(x) for x in a]
        it = self.iterate(v, st) if isinstance(v, (Ref, tuple)) else None
        if it is None:
            if isinstance(v, Ref) and OBJS[v.oid].kind == "array0":
                it = [self.dict_get(st, v, num(i)) for i in range(len(keys))]
            elif isinstance(v, R) and (v.is_const() or len(keys) == 1):
                it = [v] * len(keys)
            elif isinstance(v, R):
                it = [R.of(atom("item", v, num(i))) for i in range(len(keys))]
            else:
                return None
        if len(it) != len(keys) or any(isinstance(x, Maybe) for x in it):
            return None
        return list(zip(keys, it))

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.eval(t.value, st, fr)
                for cond, leaf in self.cases(v):
                    if isinstance(leaf, Ref):
                        st.heap[(leaf.oid, "a", t.attr)] = self._ite(
                            cond, UNDEF, st.heap.get((leaf.oid, "a", t.attr), UNDEF))
                        if self.write_hook:
                            self.write_hook("delattr", leaf, t.attr, UNDEF, st)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, st, fr)
                key = self.eval(t.slice, st, fr)
                self.delitem(obj, key, st, fr)
        return st

    def delitem(self, obj, key, st, fr):
        obj, key = restrict(obj, st.assume), restrict(key, st.assume)
        if isinstance(obj, DictView) and isinstance(key, str):
            st.heap[(obj.k[0].oid, "a", key)] = UNDEF
            return
        if isinstance(obj, Ref) and OBJS[obj.oid].kind in ("dict", "symdict") and not isinstance(key, DD):
            v = self.dict_get(st, obj, key)
            if v is MISSING and OBJS[obj.oid].kind == "dict" and (isinstance(key, (str, tuple, Ref)) or isinstance(key, R) and key.is_const()):
                if fr is not None:
                    fr.raises.append((st.pc, "KeyError", st.copy()))
                    st.pc = False
                return
            st.heap[(obj.oid, "k", _hk(key))] = MISSING
            ks = st.heap.get((obj.oid, "#keys"), ())
            if _hk(key) in ks and OBJS[obj.oid].universe is None:
                st.heap[(obj.oid, "#keys")] = tuple(k for k in ks if k != _hk(key))
            return
        if isinstance(obj, Ref) and OBJS[obj.oid].kind in ("list", "deque"):
            c = st.heap.get((obj.oid, "#"))
            if isinstance(c, tuple) and not any(isinstance(x, Maybe) for x in c):
                k = self._ints(key, st, len(c))
                if isinstance(k, int) and -len(c) <= k < len(c):
                    k = [k % len(c)]
                if isinstance(k, list):
                    st.heap[(obj.oid, "#")] = tuple(x for i, x in enumerate(c) if i not in k)
                    return
            st.heap[(obj.oid, "#")] = self.unk("list delete")
            return
        f = self.dunder(obj, "__delitem__")
        if f is not None:
            self.call(f, [key], {}, st, fr)
            return
        self.note("item deletion")

    def s_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        if c is True:
            return self.block(s.body, st, fr)
        if c is False:
            return self.block(s.orelse, st, fr)
        s1, s2 = st.copy(), st
        s1.pc, s2.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        s1.assume.update(literals(c))
        s2.assume = dict(s2.assume)
        s2.assume.update(literals(NOT(c)))
        r1 = self.block(s.body, s1, fr) if s1.pc is not False else None
        r2 = self.block(s.orelse, s2, fr) if s2.pc is not False else None
        if r1 is not None and r2 is not None:
            base = {k: v for k, v in r1.assume.items() if r2.assume.get(k) == v}
            m = self.merge(c, r1, r2)
            m.assume = base
            return m
        return r1 or r2

    def s_Match(self, s, st, fr):
        """as a chain of conditions"""
        subj = ast.Name(id="<match>", ctx=ast.Load())
        st.locals["<match>"] = self.eval(s.subject, st, fr)

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(op=ast.Or(), values=[test(x) for x in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return ast.Constant(value=True)
            raise NotImplementedError("match pattern")
        chain = []
        for c in reversed(s.cases):
            t = test(c.pattern)
            if c.guard is not None:
                t = ast.BoolOp(op=ast.And(), values=[t, c.guard])
            body = c.body
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                body = [ast.Assign(targets=[ast.Name(id=c.pattern.name, ctx=ast.Store())], value=subj)] + body
            chain = [ast.If(test=t, body=body, orelse=chain)]
        for n in chain:
            ast.copy_location(n, s)
            ast.fix_missing_locations(n)
        return self.block(chain, st, fr)

    def s_For(self, s, st, fr):
        it = self.iterate_expr(s.iter, st, fr)
        if it is None:
            return self.havoc_loop(s.body, [s.target], st, fr, s.orelse)
        loop = LoopCtx()
        fr.loops.append(loop)
        cur = st
        brk = None
        for x in it:
            if cur is None:
                break
            cond = True
            if isinstance(x, Maybe):
                cond, x = x.k
                cond = restrict(cond, cur.assume)
                if cond is False:
                    continue
            skip = None
            if cond is not True:
                skip = cur.copy()
                skip.pc = AND(cur.pc, NOT(cond))
                skip.assume.update(literals(NOT(cond)))
                cur = cur.copy()
                cur.pc = AND(cur.pc, cond)
                cur.assume.update(literals(cond))
            loop.continues = []
            self.assign(s.target, x, cur, fr)
            r = self.block(s.body, cur, fr)
            for b in loop.continues:
                r = self.merge_by_pc(b, r)
            if skip is not None:
                if r is None:
                    r = skip
                else:
                    r = self.merge(cond, r, skip)
            cur = r
        fr.loops.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        for b in loop.breaks:
            cur = self.merge_by_pc(b, cur)
        return cur

    def merge_by_pc(self, a, b):
        """merge state a (exit with its own pc) into b."""
        if b is None:
            return a
        return self.merge(a.pc, a, b)

    def s_While(self, s, st, fr):
        loop = LoopCtx()
        fr.loops.append(loop)
        n = 0
        cur = st
        while True:
            c = self.truth(self.eval(s.test, cur, fr), cur)
            if c is False:
                break
            if c is not True and n < 64 and self.unroll > 0 and n <= self.unroll:
                out = cur.copy()
                out.pc = AND(out.pc, NOT(c))
                out.assume.update(literals(NOT(c)))
                loop.breaks.append(out)
                cur.pc = AND(cur.pc, c)
                cur.assume = dict(cur.assume)
                cur.assume.update(literals(c))
            elif c is not True or n > 64:
                fr.loops.pop()
                # undecided loop condition: havoc
                cur = self.havoc_loop(s.body, [], cur, fr, s.orelse, loop)
                if self.unroll:
                    for b in loop.breaks:
                        cur = self.merge_by_pc(b, cur)
                return cur
            n += 1
            loop.continues = []
            nb = len(loop.breaks)
            cur = self.block(s.body, cur, fr)
            for b in loop.continues:
                cur = self.merge_by_pc(b, cur)
            if cur is None:
                break
            if len(loop.breaks) > nb or cur.pc is not True and n > 3 and isinstance(s.test, ast.Constant):
                if isinstance(s.test, ast.Constant):
                    # while True with conditional break: havoc the rest
                    fr.loops.pop()
                    return self.havoc_loop(s.body, [], cur, fr, s.orelse, loop)
        fr.loops.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        for b in loop.breaks:
            cur = self.merge_by_pc(b, cur)
        return cur

    def havoc_loop(self, body, targets, st, fr, orelse=(), loop=None):
        """Unknown iteration count: everything assigned becomes unknown."""
        names, effects = set(), False
        for n in ast.walk(ast.Module(body=list(body), type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        pre = st.copy()
        for t in targets:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            st.locals[n] = self.unk("loop var " + n)
        probe = st.copy()
        lc = LoopCtx()
        fr.loops.append(lc)
        r0 = len(fr.returns)
        e0 = len(fr.raises)
        out = self.block(body, probe, fr)
        fr.loops.pop()
        states = [x for x in [out] + lc.breaks + lc.continues if x is not None]
        changed = set()
        for x in states + [q[2] for q in fr.returns[r0:]]:
            for k, v in x.heap.items():
                if k not in pre.heap or not dd.leq(pre.heap[k], v):
                    changed.add(k)
        # returns inside the loop: keep as conditional exits
        rets = fr.returns[r0:]
        del fr.returns[r0:]
        raises = fr.raises[e0:]
        del fr.raises[e0:]
        for pc, v, s2 in rets:
            c = self.B("loopexit", sym("loop%d" % id(body)), num(len(fr.returns)))
            fr.returns.append((AND(pre.pc, c), v, s2))
            st.pc = AND(st.pc, NOT(c))
        for pc, nme, s2 in raises:
            c = self.B("loopraise", sym("loop%d" % id(body)), num(len(fr.raises)))
            fr.raises.append((AND(pre.pc, AND(pc, c)), nme, s2))
        for k in changed:
            if k[1] == "#keys":
                vals = ()
                for x in states:
                    vals += tuple(y for y in x.heap.get(k, ()) if y not in vals)
                st.heap[k] = vals
            elif k[1] == "k":
                vals = [x.heap.get(k) for x in states]
                if all(v is not None and dd.leq(v, vals[0]) for v in vals) and not _mentions_unk(vals[0]):
                    st.heap[k] = ite(self.B("loopran", sym("loop%d" % id(body))), vals[0],
                                     pre.heap.get(k, self.heap_default(k)))
                else:
                    st.heap[k] = self.unk("loop heap")
            elif k not in pre.heap and k[1] == "#":
                st.heap[k] = states[0].heap.get(k, ()) if states else ()
            else:
                st.heap[k] = self.unk("loop heap %s" % (k[2] if len(k) > 2 else ""))
        if orelse:
            return self.block(orelse, st, fr)
        return st

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].continues.append(st)
        return None

    def s_With(self, s, st, fr):
        for i in s.items:
            v = self.eval(i.context_expr, st, fr)
            if i.optional_vars is not None:
                ok = isinstance(v, R) or isinstance(v, Ref) and OBJS[v.oid].path == "file"
                f = self.dunder(v, "__enter__")
                if f is not None:
                    v, ok = self.call(f, [], {}, st, fr), True
                self.assign(i.optional_vars, v if ok else self.unk("with"), st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        n0 = len(fr.raises)
        r0 = len(fr.returns)
        lp = fr.loops[-1] if fr.loops else None
        jumps = (len(lp.breaks), len(lp.continues)) if lp else None
        entry = st.copy() if self.opaque_exc else None
        c0 = self.calls_seen
        out = self.block(s.body, st, fr)
        had_calls = self.calls_seen > c0
        new = fr.raises[n0:]
        del fr.raises[n0:]
        for h in s.handlers:
            names = self.handler_names(h, st, fr)
            mine = [x for x in new if exc_match(self.P, x[1], names)]
            new = [x for x in new if x not in mine]
            byname = {}
            for pc, nme, s2 in mine:
                byname[nme] = s2 if nme not in byname else self.merge_by_pc(s2, byname[nme])
            for nme, hs in byname.items():
                if h.name:
                    hs.locals[h.name] = self.unk("exception")
                fr.handling = getattr(fr, "handling", []) + [nme]
                ho = self.block(h.body, hs, fr)
                fr.handling = fr.handling[:-1]
                if ho is not None:
                    out = ho if out is None else self.merge_by_pc(ho, out)
            if self.opaque_exc and had_calls:
                es = entry.copy()
                c = self.B("exc", "/".join(names), sym("try%d_%d" % (id(s), self.depth)))
                es.pc = AND(entry.pc, c)
                es.assume.update(literals(c))
                if h.name:
                    es.locals[h.name] = self.unk("exception")
                ho = self.block(h.body, es, fr)
                if ho is not None:
                    if out is None:
                        out = ho
                    else:
                        m = self.merge(c, ho, out)
                        m.pc = OR(ho.pc, out.pc)
                        out = m
        if s.orelse and out is not None:
            out = self.block(s.orelse, out, fr)
        fr.raises.extend(new)
        if s.finalbody:
            if out is not None:
                out = self.block(s.finalbody, out, fr)
            if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for x in s.finalbody for n in ast.walk(x)):
                if lp and jumps != (len(lp.breaks), len(lp.continues)) or fr.returns[r0:] or fr.raises[n0:]:
                    self.note("jump in finally")
            for lst in (fr.returns[r0:], fr.raises[n0:]):
                for pc, v, s2 in lst:
                    q = self.block(s.finalbody, s2, fr)
            if lp:
                for s2 in lp.breaks[jumps[0]:] + lp.continues[jumps[1]:]:
                    q = self.block(s.finalbody, s2, fr)
        return out

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [exc_name(self.eval(t, st, fr)) for t in ts]

    # ---------------------------------------------------------------- eval
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expr " + type(e).__name__)
        try:
            return m(e, st, fr)
        except Blowup:
            return self.unk("blowup")

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return sym("inf")
            return num(v)
        if v is Ellipsis:
            return None
        return self.unk("const")

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def e_Attribute(self, e, st, fr):
        return self.getattr_(self.eval(e.value, st, fr), e.attr, st, fr)

    def e_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        k = self.eval(e.slice, st, fr)
        return self.getitem(o, k, st, fr)

    def e_Slice(self, e, st, fr):
        f = lambda x: self.eval(x, st, fr) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, st, fr), st)
                out.extend(it if it is not None else [self.unk("star")])
            else:
                out.append(self.eval(x, st, fr))
        return self._tup(out)

    def _tup(self, out):
        """tuples containing gated values become gated tuples lazily"""
        return tuple(out)

    def e_List(self, e, st, fr):
        return self.new_list(st, self.e_Tuple(e, st, fr))

    def e_Set(self, e, st, fr):
        return self.new_set(st, self.e_Tuple(e, st, fr))

    def e_Dict(self, e, st, fr):
        r = self.new_dict(st, [])
        for k, v in zip(e.keys, e.values):
            val = self.eval(v, st, fr)
            if k is None:
                self.dict_update(st, r, val)
            else:
                self._setitem(r, self.eval(k, st, fr), val, st, True)
        return r

    def dict_update(self, st, r, other):
        other = restrict(other, st.assume)
        if isinstance(other, DD):
            for cond, leaf in self.cases(other):
                if isinstance(leaf, Ref):
                    for c, k, v in self.dict_items(st, leaf):
                        self._setitem(r, k, v, st, AND(cond, c))
            return True
        if isinstance(other, Ref) and OBJS[other.oid].kind in ("dict", "symdict"):
            for c, k, v in self.dict_items(st, other):
                self._setitem(r, k, v, st, c)
            return True
        self.note("dict update with unknown")
        return False

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st, fr)
                if v.format_spec is not None or v.conversion not in (-1, None):
                    if not isinstance(x, str):
                        x = R.of(atom("fmt", _safe(x))) if not isinstance(x, DD) else x
                parts.append(x)
        return self.concat(parts)

    def concat(self, parts):
        def f(*ps):
            out = []
            for p in ps:
                if isinstance(p, R) and p.is_const():
                    c = p.const_val()
                    p = str(c.numerator) if c.denominator == 1 else str(float(c))
                if isinstance(p, (bool,)) or p is None:
                    p = str(p)
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            if not out:
                return ""
            if len(out) == 1 and isinstance(out[0], str):
                return out[0]
            return R.of(atom("fmt", *[_safe(p) for p in out]))
        try:
            return apply(f, *parts)
        except Blowup:
            return self.unk("fmt")

    def e_BinOp(self, e, st, fr):
        return self.binop(e.op, self.eval(e.left, st, fr), self.eval(e.right, st, fr), st, fr)

    def binop(self, op, a, b, st, fr):
        a, b = restrict(a, st.assume), restrict(b, st.assume)
        return apply(lambda x, y: self._binop(op, x, y, st, fr), a, b)

    def tonum(self, v):
        if isinstance(v, R):
            return v
        if isinstance(v, bool):
            return num(1 if v else 0)
        return None

    def _binop(self, op, a, b, st, fr):
        x, y = self.tonum(a), self.tonum(b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            nm = DUNDER.get(type(op))
            f = nm and self.dunder(a, "__%s__" % nm)
            if f:
                return self.call(f, [b], {}, st, fr)
            f = nm and self.dunder(b, "__r%s__" % nm)
            if f:
                return self.call(f, [a], {}, st, fr)
        if x is not None and y is not None:
            if isinstance(a, bool) and isinstance(b, bool) and isinstance(op, (ast.BitAnd, ast.BitOr)):
                return (a and b) if isinstance(op, ast.BitAnd) else (a or b)
            t = type(op)
            if a is NANR or b is NANR or a == NANR or b == NANR:
                if t is not ast.Pow:
                    return NANR
            if t is ast.Add:
                return x + y
            if t is ast.Sub:
                return x - y
            if t is ast.Mult:
                return x * y
            if t is ast.Div:
                if y.is_zero():
                    return sym("nan")
                return x / y
            if t is ast.Pow:
                return self.power(x, y)
            if t is ast.Mod and x.is_const() and y.is_const() and y.const_val():
                return num(x.const_val() % y.const_val())
            if t is ast.FloorDiv and x.is_const() and y.is_const() and y.const_val():
                return num(x.const_val() // y.const_val())
            return R.of(atom("fn", t.__name__, x, y))
        t = type(op)
        if t is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if (isinstance(a, str) or isinstance(b, str)) and (isinstance(a, R) or isinstance(b, R)):
                return self.concat([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and isinstance(b, Ref) and OBJS[a.oid].kind == "list":
                ia, ib = self.iterate(a, st), self.iterate(b, st)
                if ia is not None and ib is not None:
                    return self.new_list(st, ia + ib)
            if isinstance(a, Ref) and OBJS[a.oid].kind == "list" and isinstance(b, (MethV, tuple)):
                ia, ib = self.iterate(a, st), self.iterate_value(b, st)
                if ia is not None and ib is not None:
                    return self.new_list(st, list(ia) + list(ib))
            if isinstance(a, Ref) and OBJS[a.oid].kind == "list" or isinstance(b, Ref) and OBJS[b.oid].kind == "list":
                return self.unk("list concat")
        if t is ast.Mult:
            if isinstance(b, Ref) and isinstance(a, R):
                a, b = b, a
            if isinstance(a, Ref) and isinstance(b, R) and b.is_const():
                it = self.iterate(a, st)
                if it is not None:
                    return self.new_list(st, it * int(b.const_val()))
            if isinstance(b, (str, tuple)) and isinstance(a, R):
                a, b = b, a
            if isinstance(a, (str, tuple)) and isinstance(b, R) and b.is_const():
                return a * int(b.const_val())
        if t is ast.Mod and isinstance(a, str):
            parts = _percent(a, b if isinstance(b, tuple) else (b,))
            if parts is not None:
                return self.concat(parts)
            return R.of(atom("fmt", a, _safe(b)))
        if t is ast.BitOr and isinstance(a, Ref) and isinstance(b, Ref) and OBJS[a.oid].kind in ("dict", "symdict") and OBJS[b.oid].kind in ("dict", "symdict"):
            r = self.new_dict(st, [])
            self.dict_update(st, r, a)
            self.dict_update(st, r, b)
            return r
        if isinstance(a, Ref) and OBJS[a.oid].kind in ("set", "symset", "dict", "symdict") and t in (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor):
            return self.setop(t, a, b, st)
        if isinstance(a, MethV) and a.k[1] == "keysview" and t in (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor):
            return self.setop(t, a.k[0], b.k[0] if isinstance(b, MethV) and b.k[1] == "keysview" else b, st)
        if (isinstance(a, Ref) and isinstance(b, Ref) and OBJS[a.oid].kind == "object"
                and OBJS[b.oid].kind == "object" and OBJS[a.oid].cls in self.P.classes.values()
                and OBJS[b.oid].cls in self.P.classes.values() and t in DUNDER):
            fr.raises.append((st.pc, "TypeError", st.copy()))
            return self.unk("TypeError")
        return self.unk("binop %s %s %s" % (type(a).__name__, t.__name__, type(b).__name__))

    def setop(self, t, a, b, st):
        def mem(v):
            it = self.iterate_value(v, st)
            if it is None:
                return None
            d = {}
            for x in it:
                if isinstance(x, Maybe):
                    d[_hk(x.k[1])] = x.k[0]
                else:
                    d[_hk(x)] = True
            return d
        da, db = mem(a), mem(b)
        if da is None or db is None:
            return self.unk("setop")
        r = self.new_set(st, [])
        keys = list(da) + [k for k in db if k not in da]
        for k in keys:
            x, y = da.get(k, False), db.get(k, False)
            c = {ast.BitOr: lambda: OR(x, y), ast.Sub: lambda: AND(x, NOT(y)), ast.BitAnd: lambda: AND(x, y), ast.BitXor: lambda: OR(AND(x, NOT(y)), AND(y, NOT(x)))}[t]()
            if c is not False:
                self.dict_set(st, r, _unhk(k), c)
        return r

    def power(self, x, y):
        if y.is_const():
            c = y.const_val()
            if c.denominator == 1 and abs(c) <= 12:
                if c < 0 and x.is_zero():
                    return sym("nan")
                return x.ipow(int(c))
            if x.is_const() and c.denominator == 2 and abs(c) <= 3 and x.const_val() > 0:
                from math import isqrt
                b = x.const_val()
                q = (isqrt(b.numerator), isqrt(b.denominator))
                if q[0] ** 2 == b.numerator and q[1] ** 2 == b.denominator:
                    return R.const(b.__class__(*q) ** c.numerator)
            if x.is_const() and c.denominator == 1:
                return R.of(atom("fn", "pow", x, y))
        if x == ONE:
            return ONE
        return R.of(atom("fn", "pow", x, y))

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(v, st))
        def f(x):
            n = self.tonum(x)
            if isinstance(x, Ref):
                g = self.dunder(x, {ast.USub: "__neg__", ast.Invert: "__invert__"}.get(type(e.op), "__pos__"))
                if g is not None:
                    return self.call(g, [], {}, st, fr)
            if n is None:
                return self.unk("unary")
            if isinstance(e.op, ast.USub):
                return -n
            if isinstance(e.op, ast.UAdd):
                return n
            if isinstance(e.op, ast.Invert) and isinstance(x, bool):
                return not x
            return R.of(atom("fn", "invert", n))
        return apply(f, v)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        res = None
        s = st
        conds = []
        vals = []
        added = dict(st.assume)
        for i, x in enumerate(e.values):
            save = st.assume
            st.assume = added
            v = self.eval(x, st, fr)
            c = self.truth(v, st)
            st.assume = save
            vals.append((c, v))
            if c is (not is_and):
                break
            added = dict(added)
            if c is not True and c is not False:
                added.update(literals(c if is_and else NOT(c)))
        res = vals[-1][1]
        allbool = all(isinstance(v, bool) or (isinstance(v, DD) and all(isinstance(l, bool) for l in dd.terminals(v))) for _, v in vals)
        for c, v in reversed(vals[:-1]):
            if is_and:
                res = ite(c, res, c if allbool else v)
            else:
                res = ite(c, c if allbool else v, res)
        return res

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        if len(e.ops) == 1 and type(e.ops[0]) in CMPDUNDER:
            f = self.dunder(restrict(left, st.assume), CMPDUNDER[type(e.ops[0])])
            if f is not None:
                return self.call(f, [self.eval(e.comparators[0], st, fr)], {}, st, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            if len(e.ops) == 1 and type(op) in CMPDUNDER:
                # reflected method of the right operand
                f = self.dunder(restrict(right, st.assume), CMPDUNDER[REFLECTED.get(type(op), type(op))])
                if f is not None:
                    return self.call(f, [left], {}, st, fr)
            c = self.compare(op, left, right, st, fr)
            res = AND(res, c)
            left = right
        return res

    def compare(self, op, a, b, st, fr):
        a, b = restrict(a, st.assume), restrict(b, st.assume)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = apply(lambda x, y: self.contains(y, x, st, fr), a, b)
            return NOT(r) if isinstance(op, ast.NotIn) else r
        return apply(lambda x, y: self._cmp(op, x, y, st, fr), a, b)

    def _cmp(self, op, a, b, st, fr):
        t = type(op)
        if t in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
            r = self.equal(a, b, st, fr, identity=t in (ast.Is, ast.IsNot))
            return NOT(r) if t in (ast.IsNot, ast.NotEq) else r
        x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            if isinstance(a, str) and isinstance(b, str):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
            seq = self.sequence(a, st), self.sequence(b, st)
            if seq[0] is not None and seq[1] is not None:
                return self.lexical(t, seq[0], seq[1], st, fr)
            sets = self.members(a, st), self.members(b, st)
            if sets[0] is not None and sets[1] is not None:
                return self.setcmp(t, sets[0], sets[1])
            if isinstance(a, Ref) or isinstance(b, Ref):
                self.note("comparison")
            return self.B("cmp", t.__name__, _safe(a), _safe(b))
        if x == NANR or y == NANR:
            return False
        e = x - y
        if t is ast.Lt:
            return self.lt(e, True)
        if t is ast.Gt:
            return self.lt(-e, True)
        if t is ast.LtE:
            return NOT(self.lt(-e, True))
        return NOT(self.lt(e, True))

    def sequence(self, v, st):
        """items of a list or tuple without conditional items"""
        if isinstance(v, Ref) and OBJS[v.oid].kind == "list":
            v = st.heap.get((v.oid, "#"))
        if isinstance(v, tuple) and not any(isinstance(x, Maybe) for x in v):
            return v
        return None

    def lexical(self, t, a, b, st, fr):
        strict = t in (ast.Lt, ast.Gt)
        op = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
        r = (len(a) < len(b) if isinstance(op, ast.Lt) else len(a) > len(b)) or (not strict and len(a) == len(b))
        for x, y in reversed(list(zip(a, b))):
            e = self.compare(ast.Eq(), x, y, st, fr)
            r = OR(AND(e, r), AND(NOT(e), self.compare(op, x, y, st, fr)))
        return r

    def members(self, v, st):
        """{element: condition} of a set or view of keys"""
        if isinstance(v, MethV) and v.k[1] in ("keysview", "itemsview"):
            it = self.iterate_value(v, st)
        elif isinstance(v, Ref) and OBJS[v.oid].kind in ("set", "symset"):
            it = self.set_items(st, v)
        else:
            return None
        if it is None:
            return None
        return {_hk(x.k[1] if isinstance(x, Maybe) else x): x.k[0] if isinstance(x, Maybe) else True for x in it}

    def setcmp(self, t, a, b):
        sub = lambda p, q: _all(OR(NOT(c), q.get(k, False)) for k, c in p.items())
        if t in (ast.Eq, ast.NotEq):
            r = AND(sub(a, b), sub(b, a))
            return r if t is ast.Eq else NOT(r)
        if t in (ast.Gt, ast.GtE):
            a, b = b, a
        r = sub(a, b)
        return AND(r, NOT(sub(b, a))) if t in (ast.Lt, ast.Gt) else r

    STRICT = False

    def lt(self, e, _=None):
        """e < 0"""
        if e.is_const():
            return e.const_val() < 0
        ids = e.atom_ids()
        for a in e.atoms():
            if a.kind == "sym" and a.args[0] == "nan":
                return False
            if a.kind == "sym" and a.args[0] == "inf" and len(e.num) >= 1 and not e.den:
                m = ((a.id, 1),)
                if m in e.num:
                    return e.num[m] < 0
        lead = max(e.num)
        c = e.num[lead]
        if not self.STRICT and c < 0:
            e2 = R({m: v / -c for m, v in e.num.items()}, e.den)
            # e < 0  <=> -e > 0 ; almost everywhere: not (-e < 0), with -e = -c.. normalised
            e2 = R({m: -v for m, v in e2.num.items()}, e.den)
            # e2 = -e/|c| : positive leading coefficient
            return NOT(self.B("lt", e2))
        s = abs(c)
        return self.B("lt", R({m: v / s for m, v in e.num.items()}, e.den))

    def equal(self, a, b, st, fr, identity=False):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, R):
                at = o.as_atom()
                if o.is_const() or at is None:
                    return False
                return self.B("isnone", o)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            o, k = (b, a) if isinstance(a, bool) else (a, b)
            if isinstance(o, R):
                if o.is_const():
                    return (o.const_val() == (1 if k else 0)) and not identity
                t = self.B("truthy", o)
                return t if k else NOT(t)
            return False
        if isinstance(a, R) and isinstance(b, R):
            e = a - b
            if e.is_zero():
                return True
            if e.is_const():
                return False
            if any(x.kind == "sym" and x.args[0] == "nan" for x in e.atoms()):
                return False
            if self.distinct is not None:
                x, y = a.as_atom(), b.as_atom()
                if (x is not None and y is not None and x.kind == "sym"
                        and y.kind == "sym"
                        and self.distinct(x.args[0], y.args[0])):
                    return False
            lead = max(e.num)
            c = e.num[lead]
            return self.B("eq", R({m: v / c for m, v in e.num.items()}, e.den))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, R) or isinstance(b, R):
            o, k = (b, a) if not isinstance(a, R) else (a, b)
            if o.is_const() and isinstance(k, (str, tuple)):
                return False
            if isinstance(k, Ref):
                kk = OBJS[k.oid]
                if o.is_const() and kk.kind in ("dict", "set"):
                    return False
                if kk.kind in ("list", "dict", "set") :
                    return self.B("eqv", o, sym("obj%d" % k.oid))
                return self.B("eqv", o, k)
            return self.B("eqc", o, _safe(k))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = AND(r, apply(lambda p, q: self.equal(p, q, st, fr), x, y))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a is b:
                return True
            oa, ob = OBJS[a.oid], OBJS[b.oid]
            if not identity and oa.kind == ob.kind == "list":
                ia, ib = self.iterate(a, st), self.iterate(b, st)
                if ia is not None and ib is not None and not any(isinstance(x, Maybe) for x in ia + ib):
                    return self.equal(tuple(ia), tuple(ib), st, fr)
                return self.B("eqv", sym("obj%d" % a.oid), sym("obj%d" % b.oid))
            f = None if identity else self.dunder(a, "__eq__")
            if f is not None:
                return self.truth(self.call(f, [b], {}, st, fr), st)
            if not identity and oa.kind in ("set", "symset") and ob.kind in ("set", "symset"):
                if oa.kind == ob.kind == "set":
                    return self.setcmp(ast.Eq, self.members(a, st), self.members(b, st))
                return self.B("eqv", sym("obj%d" % a.oid), sym("obj%d" % b.oid))
            if not identity and oa.kind == ob.kind == "dict":
                da = {_hk(k): (c, v) for c, k, v in self.dict_items(st, a)}
                db = {_hk(k): (c, v) for c, k, v in self.dict_items(st, b)}
                r = True
                for k in list(da) + [x for x in db if x not in da]:
                    (c1, v1), (c2, v2) = da.get(k, (False, None)), db.get(k, (False, None))
                    both = AND(c1, c2)
                    same_ = True if both is False else apply(lambda p, q: self.equal(p, q, st, fr), v1, v2)
                    r = AND(r, OR(AND(NOT(c1), NOT(c2)), AND(both, same_)))
                return r
            return False
        if not identity and self.members(a, st) is not None and self.members(b, st) is not None:
            return self.setcmp(ast.Eq, self.members(a, st), self.members(b, st))
        if type(a) is type(b):
            return a == b
        return False

    def contains(self, cont, x, st, fr):
        if isinstance(cont, (tuple,)):
            items = list(cont)
        elif isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            return self.B("in", _safe(x), cont)
        elif isinstance(cont, DictView):
            r = cont.k[0]
            if isinstance(x, str):
                if self._has(r, x, st):
                    v = st.heap.get((r.oid, "a", x), True)
                    return apply(lambda z: z is not UNDEF, v)
                return self.B("hasattr", r, x)
            return self.B("hasattr", r, _safe(x))
        elif isinstance(cont, MethV) and cont.k[1] == "keysview":
            return self.contains(cont.k[0], x, st, fr)
        elif isinstance(cont, MethV) and cont.k[1] == "valuesview" and self.iterate_value(cont, st) is not None:
            items = self.iterate_value(cont, st)
        elif isinstance(cont, Ref):
            o = OBJS[cont.oid]
            f = self.dunder(cont, "__contains__")
            if f is not None:
                return self.truth(self.call(f, [x], {}, st, fr), st)
            if o.kind in ("dict", "symdict", "set", "symset"):
                if isinstance(x, (str, R, Ref, tuple)) or x is None:
                    hk = _hk(x)
                    v = restrict(self.dict_get(st, cont, x), st.assume)
                    keys = self.dict_keys(st, cont)
                    if hk in keys:
                        if o.kind in ("set", "symset"):
                            return apply(lambda z: False if z is MISSING else z, v)
                        return apply(lambda z: z is not MISSING, v)
                    if o.kind in ("symdict", "symset"):
                        if v is MISSING:
                            return self.B("in", _safe(x), sym(o.path or "o%d" % cont.oid))
                        if o.kind == "symset":
                            return v
                        return apply(lambda z: z is not MISSING, v)
                    if isinstance(x, R) and not x.is_const():
                        r = False
                        for k in keys:
                            kv = _unhk(k)
                            pres = self.dict_get(st, cont, kv)
                            pres = apply(lambda z: z is not MISSING and z is not False, pres)
                            r = OR(r, AND(pres, self.equal(x, kv, st, fr)))
                        return r
                    return False
            it = self.iterate(cont, st)
            if it is None:
                return self.B("in", _safe(x), sym(o.path or "obj%d" % cont.oid))
            items = it
        elif isinstance(cont, R):
            return self.B("in", _safe(x), cont)
        else:
            return self.B("in", _safe(x), sym(repr(cont)))
        r = False
        for i in items:
            c = True
            if isinstance(i, Maybe):
                c, i = i.k
            eq = apply(lambda p, q: self.equal(p, q, st, fr), i, x)
            r = OR(r, AND(c, eq))
            if r is True:
                return True
        return r

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else None
        if getattr(fr, "gen", None) is None:
            return self.unk("yield")
        self.method(fr.gen, "append", [v], {}, st, fr)
        return None

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        if getattr(fr, "gen", None) is None:
            return self.unk("yield")
        self.method(fr.gen, "extend", [v], {}, st, fr)
        return None

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.eval(e.test, st, fr), st)
        if c is True:
            return self.eval(e.body, st, fr)
        if c is False:
            return self.eval(e.orelse, st, fr)
        s1 = st.copy()
        s1.assume.update(literals(c))
        s1.pc = AND(st.pc, c)
        a = self.eval(e.body, s1, fr)
        s2 = st.copy()
        s2.assume.update(literals(NOT(c)))
        s2.pc = AND(st.pc, NOT(c))
        b = self.eval(e.orelse, s2, fr)
        st.heap = self.merge_heap(c, s1.heap, s2.heap)
        return ite(c, a, b)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Lambda(self, e, st, fr):
        key = len(CLOSURES) + 1
        CLOSURES[key] = (dict(st.locals), fr.closure, fr)
        return FuncV(e, fr.module, fr.owner, key)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    # comprehensions ------------------------------------------------------
    def iterate_expr(self, e, st, fr):
        v = self.eval(e, st, fr)
        return self.iterate_value(v, st)

    def iterate_value(self, v, st):
        if isinstance(v, MethV) and isinstance(v.k[0], Ref) and v.k[1] in ("itemsview", "valuesview", "keysview"):
            out = []
            for c, k, x in self.dict_items(st, v.k[0]):
                y = (k, x) if v.k[1] == "itemsview" else (x if v.k[1] == "valuesview" else k)
                out.append(y if c is True else Maybe(c, y))
            return out
        return self.iterate(v, st)

    def comp(self, gens, st, fr, emit):
        """emit(state, cond) is called for each (conditional) element."""
        def rec(i, s, cond):
            if i == len(gens):
                emit(s, cond)
                return True
            g = gens[i]
            it = self.iterate_value(self.eval(g.iter, s, fr), s)
            if it is None:
                return False
            for x in it:
                c = True
                if isinstance(x, Maybe):
                    c, x = x.k
                s.assume = dict(base)
                s.assume.update(literals(AND(cond, c)) if AND(cond, c) not in (True, False) else {})
                self.assign(g.target, x, s, fr)
                for f in g.ifs:
                    c = AND(c, self.truth(self.eval(f, s, fr), s))
                    if c is False:
                        break
                if c is False:
                    continue
                if not rec(i + 1, s, AND(cond, c)):
                    return False
            return True
        base = dict(st.assume)
        s = State(dict(st.locals), st.heap, st.pc, dict(st.assume))
        ok = rec(0, s, True)
        st.heap = s.heap
        return ok

    def e_ListComp(self, e, st, fr):
        out = []
        def emit(s, cond):
            v = self.eval(e.elt, s, fr)
            out.append(v if cond is True else Maybe(cond, v))
        if not self.comp(e.generators, st, fr, emit):
            return self.opaque_comp(e, st, fr)
        return self.new_list(st, out)

    e_GeneratorExp = e_ListComp

    def opaque_comp(self, e, st, fr):
        # still analyse the element once for effects / calls
        s = State(dict(st.locals), st.heap, st.pc, dict(st.assume))
        for g in e.generators:
            v = self.eval(g.iter, s, fr)
            self.assign(g.target, R.of(atom("elem", _safe(v))) if isinstance(v, (R,)) else self.unk("comp"), s, fr)
        elt = getattr(e, "elt", None)
        if elt is not None:
            v = self.eval(elt, s, fr)
            return R.of(atom("comp", _safe(v)))
        return self.unk("comprehension")

    def e_SetComp(self, e, st, fr):
        out = []
        def emit(s, cond):
            v = self.eval(e.elt, s, fr)
            out.append(v if cond is True else Maybe(cond, v))
        if not self.comp(e.generators, st, fr, emit):
            return self.opaque_comp(e, st, fr)
        return self.new_set(st, out)

    def e_DictComp(self, e, st, fr):
        out = []
        def emit(s, cond):
            k = self.eval(e.key, s, fr)
            v = self.eval(e.value, s, fr)
            out.append((cond, k, v))
        if not self.comp(e.generators, st, fr, emit):
            return self.unk("dictcomp")
        r = self.new_dict(st, [])
        for c, k, v in out:
            self._setitem(r, k, v, st, c)
        return r

    # ---------------------------------------------------------------- items
    def getitem(self, o, k, st, fr):
        o, k = restrict(o, st.assume), restrict(k, st.assume)
        if isinstance(o, DD) or isinstance(k, DD):
            return apply(lambda x, y: self._getitem(x, y, st, fr), o, k)
        return self._getitem(o, k, st, fr)

    def _getitem(self, o, k, st, fr):
        if isinstance(o, (tuple, str)) or (isinstance(o, Ref) and OBJS[o.oid].kind in ("list", "deque")):
            c = o if isinstance(o, (tuple, str)) else st.heap.get((o.oid, "#"))
            if isinstance(c, DD):
                return apply(lambda x: self._index(x, k, st), restrict(c, st.assume))
            return self._index(c, k, st, isinstance(o, tuple))
        if isinstance(o, Ref):
            ob = OBJS[o.oid]
            f = self.dunder(o, "__getitem__")
            if f is not None:
                return self.call(f, [k], {}, st, fr)
            if ob.kind in ("dict", "symdict", "array0"):
                if isinstance(k, SliceV):
                    k = ("slice",) + tuple(k.k)
                v = self.dict_get(st, o, k)
                if getattr(ob, "factory", None) is not None and (v is MISSING or isinstance(v, DD) and any(l is MISSING for l in dd.terminals(v))):
                    d = self.call(ob.factory, [], {}, st, fr)
                    v = apply(lambda x, y: y if x is MISSING else x, v, d)
                    self.dict_set(st, o, k, v)
                    return v
                if v is MISSING:
                    if isinstance(k, R) and not k.is_const():
                        # symbolic key over known keys
                        res = R.of(atom("item", sym(ob.path or "obj%d" % o.oid), k))
                        for kk in self.dict_keys(st, o):
                            kv = _unhk(kk)
                            if isinstance(kv, str):
                                res = ite(self.equal(k, kv, st, fr), self.dict_get(st, o, kv), res)
                        return res
                    frm = self.frames[-1] if self.frames else None
                    if frm is not None and isinstance(k, str) and ob.kind == "dict":
                        s2 = st.copy()
                        frm.raises.append((st.pc, "KeyError", s2))
                        self.log.append("KeyError %s" % k)
                        st.pc = False
                    return self.unk("missing key %r" % (k,))
                if isinstance(v, DD):
                    v = restrict(v, st.assume)
                    if any(l is MISSING for l in dd.terminals(v)):
                        v = self._strip_missing(v)
                return v
            base = sym(ob.path or "obj%d" % o.oid)
            return R.of(atom("item", base, _safe(k)))
        if isinstance(o, DictView):
            if isinstance(k, str):
                return self.obj_getattr(o.k[0], k, st, fr)
            return self.unk("dictview item")
        if isinstance(o, R):
            if self._is_sym(o, "all_false"):
                return False
            return R.of(atom("item", o, _safe(k)))
        if isinstance(o, MethV):
            return self.unk("item on method")
        return self.unk("getitem %s" % type(o).__name__)

    def _index(self, c, k, st, astuple=False):
        if not isinstance(c, (tuple, str)):
            if isinstance(c, R):
                return R.of(atom("item", c, _safe(k)))
            return self.unk("index")
        if isinstance(k, bool):
            k = num(1 if k else 0)
        if isinstance(k, R) and k.is_const() and k.const_val().denominator == 1:
            i = int(k.const_val())
            if isinstance(c, tuple) and any(isinstance(x, Maybe) for x in c):
                return self.unk("index cond list")
            if -len(c) <= i < len(c):
                return c[i]
            fr = self.frames[-1] if self.frames else None
            if fr is not None:
                fr.raises.append((st.pc, "IndexError", st.copy()))
            return self.unk("IndexError")
        if isinstance(k, SliceV):
            b = []
            for x in k.k:
                if x is None:
                    b.append(None)
                elif isinstance(x, R) and x.is_const():
                    b.append(int(x.const_val()))
                else:
                    return self.unk("slice")
            r = c[slice(*b)]
            if isinstance(c, tuple) and not astuple:
                return self.new_list(st, r)
            return r
        if isinstance(k, R) and isinstance(c, tuple) and not any(isinstance(x, Maybe) for x in c) and len(c) <= 8:
            res = R.of(atom("item", sym("list"), k))
            for i, x in enumerate(c):
                res = ite(self.equal(k, num(i), st, None), x, res)
            return res
        return self.unk("index sym")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.locals:
            if not e.args:
                sv = fr.selfv
                cls = OBJS[sv.oid].cls if isinstance(sv, Ref) else (sv.k[0] if isinstance(sv, ClassV) else None)
                if cls is not None and fr.owner is not None:
                    return SuperV(cls, fr.owner, sv)
            return self.unk("super")
        f = self.eval(e.func, st, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate_value(self.eval(a.value, st, fr), st)
                if it is None:
                    args.append(self.unk("starargs"))
                else:
                    args.extend(it)
            else:
                args.append(self.eval(a, st, fr))
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                v = restrict(v, st.assume)
                if isinstance(v, Ref) and OBJS[v.oid].kind in ("dict", "symdict"):
                    for c, kk, x in self.dict_items(st, v):
                        if isinstance(kk, str):
                            kwargs[kk] = x
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, fr, e)

    def ordered(self, it, kwargs, st, fr):
        """the items sorted (stable), None if the keys are not known"""
        if any(isinstance(x, Maybe) for x in it):
            return None
        key = kwargs.get("key")
        ks = [x if key is None else self.call(key, [x], {}, st, fr) for x in it]
        ks = [_sortkey(self, k, st) for k in ks]
        if any(k is None for k in ks):
            return None
        try:
            order = sorted(range(len(it)), key=lambda i: ks[i], reverse=kwargs.get("reverse") is True)
        except TypeError:
            return None
        return [it[i] for i in order]

    def call(self, f, args, kwargs, st, fr, node=None):
        tick()
        f = restrict(f, st.assume)
        if isinstance(f, DD):
            return self.split(f, st, lambda x, s: self.call(x, args, kwargs, s, fr, node))
        if isinstance(f, BoundV):
            fv, sv = f.k
            if isinstance(fv, FuncV):
                return self.call_func(fv, [sv] + list(args), kwargs, st, fr, sv)
            return self.call(fv, [sv] + list(args), kwargs, st, fr, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, st, fr, None)
        if isinstance(f, PartialV):
            f0, a0, k0 = f.k
            kw = dict(k0)
            kw.update(kwargs)
            return self.call(f0, list(a0) + list(args), kw, st, fr, node)
        if isinstance(f, ClassV):
            return self.instantiate(f.k[0], args, kwargs, st, fr)
        if isinstance(f, BuiltinV):
            return self.builtin(f.k[0], args, kwargs, st, fr)
        if isinstance(f, MethV):
            return self.method(f.k[0], f.k[1], args, kwargs, st, fr)
        if isinstance(f, ExtV):
            return self.external(f.k[0], args, kwargs, st, fr)
        if isinstance(f, R):
            return self.opaque_call(f, args, kwargs, st, fr)
        if isinstance(f, Ref):
            o = OBJS[f.oid]
            if o.cls is not None and o.cls.find("__call__"):
                c, n = o.cls.find("__call__")
                return self.call_func(FuncV(n, c.module, c, None), [f] + list(args), kwargs, st, fr, f)
        return self.unk("call of %r" % (f,))

    def opaque_call(self, f, args, kwargs, st, fr):
        self.calls_seen += 1
        if self.trace_calls:
            self.trace_calls(f, args, kwargs, st)
        a = f.as_atom()
        return self.lift_fn("call", f, args, kwargs, st)

    def lift_fn(self, kind, name, args, kwargs, st, skip=()):
        ks = sorted(k for k in kwargs if k not in skip)
        vals = [restrict(x, st.assume) for x in list(args) + [kwargs[k] for k in ks]]
        n = len(args)
        def mk(*xs):
            parts = [_safe(x, self, st) for x in xs[:n]]
            parts += [(k, _safe(x, self, st)) for k, x in zip(ks, xs[n:])]
            return R.of(atom(kind, name, *parts))
        try:
            return apply(mk, *vals)
        except Blowup:
            return self.unk("blowup call")

    MAXDEPTH = 28
    MAXREC = 2
    exact_attrs = False     # objects have only the attributes the program gave them

    def call_func(self, fv, args, kwargs, st, fr, selfv):
        node, module, owner, closure = fv.k
        name = getattr(node, "name", "<lambda>")
        q = module.name + "." + (owner.name + "." if owner else "") + name
        self.calls_seen += 1
        if self.trace_calls:
            self.trace_calls(q, args, kwargs, st)
        h = self.intrinsics.get(q)
        if h is not None:
            r = h(self, args, kwargs, st, fr, fv)
            if r is not NotImplemented:
                return r
        if module.name == PROP_MOD and self.opaque_props and owner is None and closure is None:
            return self.prop_call(node, name, args, kwargs, st)
        if module.name.endswith("tools.logger"):
            return None
        if module.name.endswith("document_models"):
            return None
        if q in self.no_inline:
            return self.lift_fn("fn", name, args, kwargs, st)
        if self.depth > self.MAXDEPTH or sum(1 for f2 in self.frames if f2.node is node) > self.MAXREC:
            return self.unk("recursion " + q)
        for d in getattr(node, "decorator_list", ()):
            pass
        self.funcs_seen.add((module.rel, (owner.name + "." if owner else "") + name))
        f2 = Frame(module, owner, name, closure, selfv)
        f2.node = node
        loc = self.bind(node.args, args, kwargs, module, st, name, f2)
        if loc is None:
            if fr is not None:
                fr.raises.append((st.pc, "TypeError", st.copy()))
            return self.unk("TypeError call " + q)
        if selfv is None and owner is not None and node.args.args and not isinstance(node, ast.Lambda):
            pn = node.args.args[0].arg
            if pn in ("self", "cls") and pn in loc:
                f2.selfv = loc[pn]
        free = _nonlocals(node) if closure is not None else ()
        if closure is not None and CLOSURES[closure][2] is fr:
            # names of the enclosing call have their present values
            own = CLOSURES[closure][0]
            for k, v in st.locals.items():
                own[k] = v
        elif free:
            self.note("nonlocal")
        s = State(loc, st.heap, True, dict(st.assume))
        gen = None
        if _generator(node):
            gen = f2.gen = self.new_list(s, [])
            OBJS[gen.oid].extra = "iter"
        self.frames.append(f2)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, s, f2)
                out = s
                st.heap = s.heap
                self._propagate(f2, st, fr)
                return v
            out = self.block(node.body, s, f2)
        finally:
            self.frames.pop()
            self.depth -= 1
        exits = list(f2.returns)
        if out is not None:
            exits.append((out.pc, None, out))
        if not exits:
            # only raises
            self._propagate(f2, st, fr)
            st.pc = False
            return self.unk("noreturn " + q)
        # merge exits; the last one needs no guard
        pc, val, es = exits[-1]
        heap = es.heap
        outer = {k: es.locals.get(k, UNDEF) for k in free}
        for pc, v, es in reversed(exits[:-1]):
            val = self._ite(pc, v, val)
            heap = self.merge_heap(pc, es.heap, heap)
            for k in free:
                outer[k] = self._ite(pc, es.locals.get(k, UNDEF), outer[k])
        st.heap = heap
        for k, v in outer.items():
            if v is not UNDEF:
                st.locals[k] = apply(lambda x, y: y if x is UNDEF else x, v, st.locals.get(k, UNDEF))
        self._propagate(f2, st, fr)
        return val if gen is None else gen

    def _propagate(self, f2, st, fr):
        if not f2.raises:
            return
        bad = False
        for pc, name, s2 in f2.raises:
            g = AND(st.pc, pc)
            if g is False:
                continue
            if fr is not None:
                s3 = State(dict(st.locals), s2.heap, g, dict(st.assume))
                fr.raises.append((g, name, s3))
            bad = OR(bad, pc)
        st.pc = AND(st.pc, NOT(bad))
        if isinstance(bad, DD):
            st.assume = dict(st.assume)
            st.assume.update(literals(NOT(bad)))

    def default(self, node, module, st, fr):
        f = Frame(module, None, "<default>", fr.closure)
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            return self.once(("default", node, fr.closure), node, f, st)
        return self.eval(node, State({}, st.heap), f)

    def bind(self, a, args, kwargs, module, st, name, fr):
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        extra = kwargs.pop("**", None)
        for i, p in enumerate(pos):
            if i < len(args):
                loc[p] = args[i]
        rest = args[len(pos):]
        if rest and a.vararg is None:
            return None
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(rest)
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if p in loc:
                if p in kwargs:
                    if p not in [x.arg for x in a.posonlyargs]:
                        return None
                continue
            if p in kwargs:
                loc[p] = kwargs.pop(p)
            elif i >= len(pos) - nd:
                loc[p] = self.default(a.defaults[i - (len(pos) - nd)], module, st, fr)
            elif extra is not None:
                loc[p] = R.of(atom("item", extra, p)) if isinstance(extra, R) else self.unk("kwarg " + p)
            else:
                return None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                loc[x.arg] = self.default(d, module, st, fr)
            elif extra is not None:
                loc[x.arg] = self.unk("kwonly")
            else:
                return None
        if a.kwarg is not None:
            if extra is not None and not kwargs:
                loc[a.kwarg.arg] = extra
            else:
                loc[a.kwarg.arg] = self.new_dict(st, kwargs.items())
        elif kwargs:
            return None
        return loc

    # fluid property library: opaque, canonical positional arguments -------
    def prop_call(self, node, name, args, kwargs, st):
        params = [x.arg for x in node.args.args]
        vals = {}
        for p, v in zip(params, args):
            vals[p] = v
        extra = None
        if len(args) > len(params):
            extra = args[len(params):]
        for k, v in kwargs.items():
            if k == "**":
                continue
            vals[k] = v
        defaults = dict(zip(params[len(params) - len(node.args.defaults):], node.args.defaults))
        out = []
        for p in params:
            if p == "T0":
                continue
            if p in vals:
                out.append(vals[p])
            elif p in defaults:
                out.append(self.eval(defaults[p], State({}, {}), Frame(self.P.modules[PROP_MOD], None, "", None)))
            else:
                out.append(self.unk("missing property argument %s of %s" % (p, name)))
        out = [restrict(v, st.assume) for v in out]
        def mk(*xs):
            ys = [_safe(x, self, st) for x in xs]
            if name == "dT_mix_ph_dfluid" and len(ys) == 5 and isinstance(ys[2], str):
                return R.of(atom("dfn", "T_mix_ph", "2:" + ys[2], ys[0], ys[1], ys[3], ys[4]))
            if name in DERIV_TABLE:
                f, i = DERIV_TABLE[name]
                return R.of(atom("dfn", f, i, *ys))
            return R.of(atom("fn", name, *ys))
        try:
            r = apply(mk, *out)
        except Blowup:
            return self.unk("prop")
        if name in ("calc_physical_exergy",):
            return (R.of(atom("item", r, num(0))), R.of(atom("item", r, num(1)))) if isinstance(r, R) else r
        return r

    # classes ---------------------------------------------------------------
    def instantiate(self, cls, args, kwargs, st, fr):
        h = self.intrinsics.get("new:" + cls.name)
        if h is not None:
            r = h(self, cls, args, kwargs, st, fr)
            if r is not NotImplemented:
                return r
        if any(isinstance(c, ClassInfo) and c.name == "DataContainer" for c in cls.mro):
            return self.new_container(cls, kwargs, st, fr)
        if is_exception(cls):
            return R.of(atom("exception", cls.name))
        o = new_obj("object", cls)
        f = cls.find("__init__")
        if f:
            self.call_func(FuncV(f[1], f[0].module, f[0], None), [o] + list(args), kwargs, st, fr, o)
        return o

    def new_container(self, cls, kwargs, st, fr):
        o = new_obj("container", cls)
        f = cls.find("attr")
        d = self.call_func(FuncV(f[1], f[0].module, f[0], None), [], {}, st, fr, None)
        if isinstance(d, Ref):
            for c, k, v in self.dict_items(st, d):
                if isinstance(k, str):
                    st.heap[(o.oid, "a", k)] = v
        for k, v in kwargs.items():
            st.heap[(o.oid, "a", k)] = v
        return o

    # externals ---------------------------------------------------------------
    def external(self, name, args, kwargs, st, fr):
        self.calls_seen += 1
        if self.trace_calls:
            self.trace_calls(name, args, kwargs, st)
        h = self.intrinsics.get("ext:" + name)
        if h is not None:
            r = h(self, args, kwargs, st, fr)
            if r is not NotImplemented:
                return r
        if "nparr" in self.P.stubs and name in NPARR and (name not in ("numpy.cumsum", "numpy.diff", "numpy.sort") or self.const_items(args, st)):
            m = self.P.modules["nparr"]
            return self.call(FuncV(m.defs[name[6:]][1], m, None, None), args, kwargs, st, fr)
        if name == "itertools.product" and not kwargs:
            its = [self.iterate_value(a, st) for a in args]
            if all(i is not None for i in its):
                out = [(True, ())]
                for it in its:
                    nxt = []
                    for c, t in out:
                        for x in it:
                            if isinstance(x, Maybe):
                                nxt.append((AND(c, x.k[0]), t + (x.k[1],)))
                            else:
                                nxt.append((c, t + (x,)))
                    out = nxt
                return self.new_list(st, [t if c is True else Maybe(c, t) for c, t in out])
        if name in PURE_MATH:
            fn = PURE_MATH[name]
            def f(x):
                n = self.tonum(x)
                if n is None and isinstance(x, Ref) and "nparr" in self.P.stubs and OBJS[x.oid].cls is not None and OBJS[x.oid].cls.name == "ndarray":
                    it = self.iterate(st.heap[(x.oid, "a", "_v")], st)
                    if it is not None and not any(isinstance(y, Maybe) for y in it):
                        m = self.P.modules["nparr"]
                        return self.call(FuncV(m.defs["array"][1], m, None, None), [self.new_list(st, [apply(f, y) for y in it])], {}, st, fr)
                if n is None:
                    return self.unk(name)
                return self.mathfn(fn, n)
            if len(args) == 1:
                return apply(f, args[0])
        if name == "numpy.linalg.norm" and len(args) == 1 and not kwargs:
            it = self.iterate_value(args[0], st) if isinstance(args[0], (Ref, tuple)) else None
            if it is not None and not any(isinstance(x, (Maybe, DD)) or self.tonum(x) is None for x in it):
                return self.mathfn("sqrt", sum((self.tonum(x) * self.tonum(x) for x in it), num(0)))
        if name in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull"):
            def f(x):
                if isinstance(x, R):
                    if x.is_const():
                        return False
                    if any(a.kind == "sym" and a.args[0] == "nan" for a in x.atoms()):
                        return True
                    return self.B("isnan", x)
                return self.B("isnan", _safe(x))
            return apply(f, restrict(args[0], st.assume))
        if name in ("numpy.zeros",):
            o = new_obj("array0")
            st.heap[(o.oid, "#keys")] = ()
            sh = self.iterate(args[0], st) if isinstance(args[0], (Ref, tuple)) else list(args[:1])
            if sh and all(isinstance(x, R) and x.is_const() for x in sh):
                OBJS[o.oid].extra = tuple(int(x.const_val()) for x in sh)
            return o
        if name in ("numpy.array", "numpy.asarray"):
            return args[0]
        if name in ("copy.deepcopy", "copy.copy"):
            return self.clone(args[0], st, fr, name == "copy.deepcopy", {})
        if name == "functools.partial":
            return PartialV(args[0], tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda t: t[0])))
        if name in ("numpy.sum", "math.fsum"):
            return self.builtin("sum", args, {}, st, fr)
        if name in ("numpy.isclose", "math.isclose"):
            return self.lift_fn("call", name, args, kwargs, st)
        if name.startswith("tespy.") and ".logger." in name:
            return None
        if name == "collections.OrderedDict":
            return self.builtin("dict", args, kwargs, st, fr)
        if name == "functools.reduce" and len(args) in (2, 3):
            it = self.iterate_value(args[1], st)
            if it is not None and not any(isinstance(x, Maybe) for x in it):
                it = list(it)
                acc = args[2] if len(args) == 3 else (it.pop(0) if it else None)
                for x in it:
                    acc = self.call(args[0], [acc, x], {}, st, fr)
                return acc
        if name == "itertools.chain":
            out = []
            for a in args:
                it = self.iterate_value(a, st)
                if it is None:
                    break
                out.extend(it)
            else:
                return self.new_list(st, out)
        if name in OPERATORS and len(args) == 2:
            return self.binop(OPERATORS[name](), args[0], args[1], st, fr)
        if name in COMPARES and len(args) == 2:
            return self.compare(COMPARES[name](), args[0], args[1], st, fr)
        if name in ("operator.itemgetter", "operator.attrgetter"):
            return PartialV(BuiltinV(name), tuple(args), ())
        if name == "itertools.chain.from_iterable" and len(args) == 1:
            it = self.iterate_value(args[0], st)
            if it is not None and not any(isinstance(x, Maybe) for x in it):
                return self.external("itertools.chain", it, {}, st, fr)
        if name == "itertools.repeat" and len(args) == 2 and isinstance(args[1], R) and args[1].is_const():
            return self.new_list(st, [args[0]] * int(args[1].const_val()))
        if name in ("itertools.zip_longest", "itertools.islice", "itertools.combinations", "itertools.accumulate", "itertools.permutations", "itertools.pairwise"):
            r = self.itertool(name.split(".")[1], args, kwargs, st, fr)
            if r is not None:
                return self.new_list(st, r)
        if name == "collections.deque":
            it = self.iterate_value(args[0], st) if args else []
            if it is not None and len(args) < 2 and not kwargs:
                return self.new_list(st, it, "deque")
        if name == "collections.defaultdict":
            r = self.builtin("dict", args[1:], kwargs, st, fr)
            if isinstance(r, Ref) and args:
                OBJS[r.oid].factory = args[0]
            return r
        if name == "contextlib.suppress":
            self.note("suppress")
        if name.split(".")[0] in ("itertools", "collections", "functools", "operator"):
            return self.unk("external " + name)
        return self.lift_fn("call", name, args, kwargs, st)

    def itertool(self, name, args, kwargs, st, fr):
        import itertools
        its = [self.iterate_value(a, st) if not isinstance(a, R) and a is not None else a for a in args]
        if its[0] is None or any(isinstance(x, Maybe) for it in its if isinstance(it, list) for x in it):
            return None
        const = lambda x: int(x.const_val()) if isinstance(x, R) and x.is_const() else x
        if name == "zip_longest" and all(isinstance(i, list) for i in its):
            return list(itertools.zip_longest(*its, fillvalue=kwargs.get("fillvalue")))
        if name == "islice":
            return list(itertools.islice(its[0], *map(const, args[1:])))
        if name in ("combinations", "permutations") and len(args) == 2:
            return list(getattr(itertools, name)(its[0], const(args[1])))
        if name == "pairwise":
            return list(zip(its[0], its[0][1:]))
        if name == "accumulate" and not kwargs and len(args) < 3:
            out = []
            for x in its[0]:
                if not out:
                    out.append(x)
                elif len(args) == 2:
                    out.append(self.call(args[1], [out[-1], x], {}, st, fr))
                else:
                    out.append(self.binop(ast.Add(), out[-1], x, st, fr))
            return out
        return None

    def const_items(self, args, st):
        """a sequence of known numbers"""
        v = args[0] if args else None
        if isinstance(v, Ref) and OBJS[v.oid].cls is not None and OBJS[v.oid].cls.name == "ndarray":
            v = st.heap.get((v.oid, "a", "_v"))
        it = self.iterate_value(v, st) if isinstance(v, (Ref, tuple)) else None
        return it is not None and all(isinstance(x, R) and x.is_const() for x in it)

    def mathfn(self, fn, x):
        if fn == "abs":
            if x.is_const():
                return num(abs(x.const_val()))
            if any(a.kind == "sym" and a.args[0] in ("nan",) for a in x.atoms()):
                return sym("nan")
            # sign normalise |x| = |-x|
            lead = max(x.num)
            if x.num[lead] < 0:
                x = -x
            return R.of(atom("fn", "abs", x))
        if fn == "sqrt":
            if x.is_const() and x.const_val() >= 0:
                q = x.const_val()
                a, b = isqrt(q.numerator), isqrt(q.denominator)
                if a * a == q.numerator and b * b == q.denominator:
                    return num(Fraction(a, b))
            return R.of(atom("fn", "pow", x, num(Fraction(1, 2))))
        if fn == "log":
            if x == ONE:
                return ZERO
        return R.of(atom("fn", fn, x))

    def builtin(self, name, args, kwargs, st, fr):
        if name in ("operator.itemgetter", "operator.attrgetter"):
            o, out = args[-1], []
            for k in args[:-1]:
                if name.endswith("itemgetter"):
                    out.append(self.getitem(o, k, st, fr))
                else:
                    v = o
                    for part in k.split("."):
                        v = self.getattr_(v, part, st, fr)
                    out.append(v)
            return out[0] if len(out) == 1 else tuple(out)
        if name == "abs":
            return apply(lambda x: self.mathfn("abs", self.tonum(x)) if self.tonum(x) is not None else self.unk("abs"), restrict(args[0], st.assume))
        if name in ("float", "int", "round", "complex"):
            def f(x):
                n = self.tonum(x)
                if n is not None:
                    if name == "float":
                        return n
                    if n.is_const() and len(args) == 1:
                        return num(int(n.const_val()) if name == "int" else round(n.const_val()))
                    if name == "round" and n.is_const() and all(isinstance(a, R) and a.is_const() for a in args[1:]):
                        q = args[1].const_val() if len(args) > 1 else 0
                        return num(Fraction(round(n.const_val() * 10 ** int(q))) / 10 ** int(q))
                    return R.of(atom("fn", name, n)) if name != "round" else R.of(atom("fn", "round", n, *[_safe(a) for a in args[1:]]))
                if isinstance(x, str):
                    try:
                        return num(float(x)) if name == "float" else num(int(x))
                    except ValueError:
                        if fr is not None:
                            fr.raises.append((st.pc, "ValueError", st.copy()))
                        return self.unk("float(str)")
                if x is None or isinstance(x, Ref):
                    if fr is not None:
                        fr.raises.append((st.pc, "TypeError", st.copy()))
                    return self.unk("float(None)")
                return self.unk(name)
            if not args:
                return ZERO
            return apply(f, restrict(args[0], st.assume))
        if name == "sum":
            it = self.iterate_value(args[0], st)
            if it is None:
                if isinstance(args[0], R):
                    return R.of(atom("fn", "sum", args[0]))
                return self.unk("sum")
            acc = args[1] if len(args) > 1 else ZERO
            for x in it:
                if isinstance(x, Maybe):
                    acc = self._ite(x.k[0], self.binop(ast.Add(), acc, x.k[1], st, fr), acc)
                else:
                    acc = self.binop(ast.Add(), acc, x, st, fr)
            return acc
        if name in ("min", "max"):
            it = list(args) if len(args) > 1 else self.iterate_value(args[0], st)
            if it and kwargs.get("key") is not None:
                srt = self.ordered(it, {"key": kwargs["key"]}, st, fr)
                if srt is not None and name == "min":
                    return srt[0]
                if srt is not None:
                    return self.ordered(it, {"key": kwargs["key"], "reverse": True}, st, fr)[0]
            if it is None or any(isinstance(x, Maybe) for x in it) or not it or "key" in kwargs:
                return self.lift_fn("fn", name, args, kwargs, st)
            acc = it[0]
            for x in it[1:]:
                c = self.compare(ast.Lt() if name == "min" else ast.Gt(), x, acc, st, fr)
                acc = ite(c, x, acc)
            return acc
        if name == "len":
            v = restrict(args[0], st.assume)
            def f(x):
                g = self.dunder(x, "__len__")
                if g is not None:
                    return self.call(g, [], {}, st, fr)
                it = self.iterate_value(x, st)
                if it is None:
                    return R.of(atom("fn", "len", _safe(x)))
                n = ZERO
                for i in it:
                    if isinstance(i, Maybe):
                        n = self.binop(ast.Add(), n, ite(i.k[0], ONE, ZERO), st, fr)
                    else:
                        n = self.binop(ast.Add(), n, ONE, st, fr)
                return n
            return apply(f, v)
        if name == "range":
            vals = [restrict(a, st.assume) for a in args]
            if all(isinstance(a, R) and a.is_const() for a in vals):
                return self.new_list(st, [num(i) for i in range(*[int(a.const_val()) for a in vals])])
            return R.of(atom("fn", "range", *[_safe(v) for v in vals]))
        if name == "enumerate":
            it = self.iterate_value(args[0], st)
            start = kwargs.get("start", args[1] if len(args) > 1 else ZERO)
            if it is None:
                return R.of(atom("fn", "enumerate", _safe(args[0])))
            if any(isinstance(x, Maybe) for x in it):
                out = []
                n = start
                for x in it:
                    if isinstance(x, Maybe):
                        out.append(Maybe(x.k[0], (n, x.k[1])))
                        n = self.binop(ast.Add(), n, ite(x.k[0], ONE, ZERO), st, fr)
                    else:
                        out.append((n, x))
                        n = self.binop(ast.Add(), n, ONE, st, fr)
                return self.new_list(st, out)
            return self.new_list(st, [(start + num(i), x) for i, x in enumerate(it)])
        if name == "zip":
            its = [self.iterate_value(a, st) for a in args]
            if any(i is None or any(isinstance(x, Maybe) for x in i) for i in its):
                return self.unk("zip")
            return self.new_list(st, list(zip(*its)))
        if name in ("list", "tuple", "sorted", "reversed", "iter", "frozenset", "set"):
            if not args:
                return self.new_set(st, []) if name in ("set", "frozenset") else (() if name == "tuple" else self.new_list(st, []))
            it = self.iterate_value(args[0], st)
            if it is None:
                v = restrict(args[0], st.assume)
                if isinstance(v, R):
                    return v if name in ("list", "tuple", "iter") else R.of(atom("fn", name, v))
                return self.unk(name)
            if name == "reversed":
                it = it[::-1]
            if name == "sorted":
                srt = self.ordered(it, kwargs, st, fr)
                if srt is not None:
                    it = srt
                elif "key" in kwargs or len(it) > 1:
                    return R.of(atom("fn", "sorted", *[_safe(x) for x in it]))
            if name in ("set", "frozenset"):
                return self.new_set(st, it)
            if name == "iter":
                r = self.new_list(st, it)
                OBJS[r.oid].extra = "iter"
                return r
            if name == "tuple" and not any(isinstance(x, Maybe) for x in it):
                return tuple(it)
            return self.new_list(st, it)
        if name == "dict":
            r = self.new_dict(st, [])
            for a in args:
                if isinstance(a, Ref) and OBJS[a.oid].kind in ("dict", "symdict"):
                    self.dict_update(st, r, a)
                else:
                    it = self.iterate_value(a, st)
                    if it is None:
                        return self.unk("dict()")
                    for x in it:
                        c = True
                        if isinstance(x, Maybe):
                            c, x = x.k
                        if isinstance(x, tuple) and len(x) == 2:
                            self._setitem(r, x[0], x[1], st, c)
            for k, v in kwargs.items():
                if k == "**":
                    self.dict_update(st, r, v)
                else:
                    self.dict_set(st, r, k, v)
            return r
        if name in ("any", "all"):
            it = self.iterate_value(args[0], st)
            if it is None:
                return self.B(name, _safe(args[0]))
            r = name == "all"
            for x in it:
                c = True
                if isinstance(x, Maybe):
                    c, x = x.k
                t = self.truth(x, st)
                if name == "any":
                    r = OR(r, AND(c, t))
                else:
                    r = AND(r, OR(NOT(c), t))
            return r
        if name == "isinstance":
            v = restrict(args[0], st.assume)
            ts = list(args[1]) if isinstance(args[1], tuple) else [args[1]]
            return apply(lambda x: self.isinst(x, ts), v)
        if name == "callable" and (isinstance(args[0], (FuncV, BoundV, ClassV, BuiltinV)) or args[0] is None or isinstance(args[0], (str, tuple, bool)) or isinstance(args[0], R) and args[0].is_const()):
            return isinstance(args[0], (FuncV, BoundV, ClassV, BuiltinV))
        if name == "issubclass" and isinstance(args[0], ClassV) and isinstance(args[1], ClassV):
            return args[1].k[0] in args[0].k[0].mro
        if name == "divmod":
            return (self.binop(ast.FloorDiv(), args[0], args[1], st, fr), self.binop(ast.Mod(), args[0], args[1], st, fr))
        if name == "issubclass":
            return self.B("issubclass", _safe(args[0]), _safe(args[1]))
        if name == "hasattr":
            def f(x):
                if isinstance(x, Ref) and isinstance(args[1], str):
                    if (x.oid, "a", args[1]) in st.heap:
                        return apply(lambda z: z is not UNDEF, st.heap[(x.oid, "a", args[1])])
                    if self._has(x, args[1], st) or (OBJS[x.oid].cls is not None and OBJS[x.oid].cls.find(args[1])):
                        return True
                    o = OBJS[x.oid]
                    if o.lazy is None and o.cls is not None and (self.exact_attrs or any(getattr(b, "name", None) == "DataContainer" for b in o.cls.mro)):
                        return False
                    return self.B("hasattr", x, args[1])
                return self.B("hasattr", _safe(x), _safe(args[1]))
            return apply(f, restrict(args[0], st.assume))
        if name == "getattr":
            if len(args) == 3 and isinstance(args[1], str):
                # default for missing attributes
                has = self.builtin("hasattr", [args[0], args[1]], {}, st, fr)
                has = restrict(has, st.assume)
                if has is False:
                    return args[2]
                if has is True:
                    return self.getattr_(args[0], args[1], st, fr)
                return ite(has, self.getattr_(args[0], args[1], st, fr), args[2])
            if isinstance(args[1], str):
                return self.getattr_(args[0], args[1], st, fr)
            n = restrict(args[1], st.assume)
            if isinstance(n, DD):
                return apply(lambda x: self.getattr_(args[0], x, st, fr) if isinstance(x, str) else self.unk("getattr"), n)
            return self.unk("getattr dyn")
        if name == "setattr":
            if isinstance(args[1], str):
                self.setattr_(args[0], args[1], args[2], st, fr)
            else:
                self.note("setattr dyn")
            return None
        if name == "delattr":
            if isinstance(args[1], str) and isinstance(args[0], Ref):
                st.heap[(args[0].oid, "a", args[1])] = UNDEF
            return None
        if name in ("print",):
            return None
        if name == "str":
            if not args:
                return ""
            return self.concat([args[0]])
        if name == "bool":
            return self.truth(args[0], st) if args else False
        if name == "type":
            v = restrict(args[0], st.assume)
            if isinstance(v, Ref) and OBJS[v.oid].cls is not None:
                return ClassV(OBJS[v.oid].cls)
            if isinstance(v, Ref) and OBJS[v.oid].kind in ("list", "dict", "set"):
                return BuiltinV(OBJS[v.oid].kind)
            if isinstance(v, (str, bool, tuple)):
                return BuiltinV(type(v).__name__)
            if isinstance(v, R) and v.is_const():
                return BuiltinV("int" if v.const_val().denominator == 1 else "float")
            return R.of(atom("fn", "type", _safe(v)))
        if name == "map":
            its = [self.iterate_value(a, st) for a in args[1:]]
            if len(its) >= 1 and all(i is not None for i in its):
                out = []
                for xs in zip(*its):
                    if len(xs) == 1 and isinstance(xs[0], Maybe):
                        out.append(Maybe(xs[0].k[0], self.call(args[0], [xs[0].k[1]], {}, st, fr)))
                    else:
                        out.append(self.call(args[0], list(xs), {}, st, fr))
                return self.new_list(st, out)
            return self.unk("map")
        if name == "filter":
            it = self.iterate_value(args[1], st)
            if it is None:
                return self.unk("filter")
            out = []
            for x in it:
                c = True
                if isinstance(x, Maybe):
                    c, x = x.k
                t = self.truth(x if args[0] is None else self.call(args[0], [x], {}, st, fr), st)
                c = AND(c, t)
                if c is not False:
                    out.append(x if c is True else Maybe(c, x))
            return self.new_list(st, out)
        if name == "next":
            it = self.iterate_value(args[0], st)
            if it and isinstance(args[0], Ref) and OBJS[args[0].oid].extra == "iter" and not isinstance(it[0], Maybe):
                st.heap[(args[0].oid, "#")] = tuple(it[1:])
                return it[0]
            if it:
                acc = args[1] if len(args) > 1 else self.unk("StopIteration")
                for x in reversed(it):
                    if isinstance(x, Maybe):
                        acc = self._ite(x.k[0], x.k[1], acc)
                    else:
                        acc = x
                return acc
            if it == [] and len(args) > 1:
                return args[1]
            return R.of(atom("fn", "next", _safe(args[0]))) if args else self.unk("next")
        if name == "pow" and len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1], st, fr)
        if name == "slice":
            a = list(args)
            if len(a) == 1:
                a = [None, a[0]]
            return SliceV(*(a + [None] * (3 - len(a))))
        if name == "vars" and args:
            return DictView(args[0])
        if name in ("property", "staticmethod", "classmethod"):
            return args[0]
        if name == "open":
            h = self.intrinsics.get("builtin:open")
            if h is not None:
                return h(self, args, kwargs, st, fr)
            return R.of(atom("call", "open", *[_safe(a) for a in args]))
        if name == "object":
            return new_obj("object")
        if name in EXC_NAMES:
            return R.of(atom("exception", name))
        return self.lift_fn("call", "builtins." + name, args, kwargs, st)

    def isinst(self, x, ts):
        r = False
        instub = bool(self.frames) and self.frames[-1].module is not None and self.frames[-1].module.name in self.P.stubs
        for t in ts:
            if isinstance(t, tuple):
                r = OR(r, self.isinst(x, list(t)))
                continue
            if isinstance(x, SliceV):
                if isinstance(t, BuiltinV) and t.k[0] == "slice":
                    return True
                continue
            if instub and isinstance(x, (R, _Val)):
                # cells of a table are plain values
                if isinstance(t, (ClassV, BuiltinV)):
                    continue
            if isinstance(t, ClassV):
                if isinstance(x, Ref):
                    c = OBJS[x.oid].cls
                    if c is not None and t.k[0] in c.mro:
                        return True
                    if c is None and OBJS[x.oid].kind == "object":
                        r = OR(r, self.B("isinstance", x, t.k[0].name))
                elif isinstance(x, R) and x.as_atom() is not None:
                    r = OR(r, self.B("isinstance", x, t.k[0].name))
            elif isinstance(t, BuiltinV):
                n = t.k[0]
                if isinstance(x, bool):
                    if n in ("bool", "int"):
                        return True
                elif isinstance(x, str):
                    if n == "str":
                        return True
                elif isinstance(x, R):
                    if x.is_const():
                        if n == "float" or (n == "int" and x.const_val().denominator == 1):
                            return True
                    elif x.as_atom() is not None or n in ("int", "float", "complex"):
                        r = OR(r, self.B("isinstance", x, n))
                elif isinstance(x, tuple):
                    if n == "tuple":
                        return True
                elif isinstance(x, Ref):
                    k = OBJS[x.oid].kind
                    if {"list": "list", "dict": "dict", "symdict": "dict", "set": "set", "symset": "set"}.get(k) == n:
                        return True
            elif isinstance(t, ExtV):
                if isinstance(x, Ref):
                    k = OBJS[x.oid].kind
                    if t.k[0].endswith("Mapping") and k in ("dict", "symdict"):
                        return True
                    if OBJS[x.oid].cls is None and k == "object":
                        r = OR(r, self.B("isinstance", x, t.k[0]))
                elif isinstance(x, R) and not x.is_const():
                    r = OR(r, self.B("isinstance", x, t.k[0]))
            else:
                if isinstance(x, R):
                    r = OR(r, self.B("isinstance", x, _safe(t)))
                elif not isinstance(x, (bool, str, type(None), tuple)):
                    r = OR(r, self.B("isinstance", _safe(x), _safe(t)))
        return r

    def method(self, o, name, args, kwargs, st, fr):
        if isinstance(o, BuiltinV) and name == "fromkeys":
            it = self.iterate_value(args[0], st)
            if it is None or any(isinstance(x, (Maybe, DD)) for x in it):
                return self.unk("fromkeys")
            return self.new_dict(st, [(x, args[1] if len(args) > 1 else None) for x in it])
        if isinstance(o, str):
            if all(isinstance(a, str) for a in args) and name in (
                    "replace", "split", "startswith", "endswith", "upper", "lower", "strip", "title",
                    "lstrip", "rstrip", "index", "find", "count", "capitalize", "join", "isdigit", "removesuffix", "removeprefix", "rsplit", "partition", "rpartition", "isnumeric", "isalpha", "islower", "isupper", "swapcase", "casefold", "splitlines"):
                if name != "join":
                    try:
                        r = getattr(o, name)(*args)
                    except ValueError:
                        return self.unk("str method")
                    if isinstance(r, list):
                        return self.new_list(st, r)
                    if isinstance(r, tuple):
                        return r
                    if isinstance(r, bool) or isinstance(r, str):
                        return r
                    return num(r)
            if name in ("split", "rsplit") and len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], R) and args[1].is_const():
                return self.new_list(st, getattr(o, name)(args[0], int(args[1].const_val())))
            if name == "replace" and all(isinstance(a, str) for a in args[:2]):
                return o.replace(args[0], args[1])
            if name == "join":
                it = self.iterate_value(args[0], st)
                if it is not None and not any(isinstance(x, Maybe) for x in it):
                    parts = []
                    for i, x in enumerate(it):
                        if i:
                            parts.append(o)
                        parts.append(x)
                    return self.concat(parts)
                return R.of(atom("fmt", o, "join"))
            if name == "format":
                parts = _format(o, args, kwargs)
                if parts is not None:
                    return self.concat(parts)
                return R.of(atom("fmt", o, *[_safe(a, self, st) for a in args if not isinstance(a, DD)]))
            if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], tuple) and all(isinstance(a, str) for a in args[0]):
                return getattr(o, name)(args[0])
            return R.of(atom("fn", "str." + name, o, *[_safe(a) for a in args]))
        if isinstance(o, DictView):
            r = o.k[0]
            if name == "update":
                src = args[0] if args else None
                if src is not None:
                    for cond, leaf in self.cases(src):
                        if isinstance(leaf, Ref):
                            for c, k, v in self.dict_items(st, leaf):
                                if isinstance(k, str):
                                    c2 = AND(c, cond)
                                    if c2 is not True:
                                        v = self._ite(c2, v, st.heap.get((r.oid, "a", k), self.attr_default(r.oid, k)))
                                    self._store(st, r, k, v)
                                else:
                                    self.note("dynamic __dict__ key")
                                    if self.write_hook:
                                        self.write_hook("dynattr", r, k, v, st)
                for k, v in kwargs.items():
                    self._store(st, r, k, v)
                return None
            if name in ("keys", "items", "values"):
                if OBJS[r.oid].lazy is not None or OBJS[r.oid].path is not None:
                    return self.unk("__dict__." + name)
                out = []
                for k, v in list(st.heap.items()):
                    if k[0] == r.oid and k[1] == "a":
                        c = apply(lambda z: z is not UNDEF, v)
                        x = k[2] if name == "keys" else v if name == "values" else (k[2], v)
                        if c is not False:
                            out.append(x if c is True else Maybe(c, x))
                return self.new_list(st, out)
            if name == "get" and isinstance(args[0], str):
                if self._has(r, args[0], st):
                    return self.obj_getattr(r, args[0], st, fr)
                return args[1] if len(args) > 1 else None
            return self.unk("__dict__." + name)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if dd.leq(x, args[0]):
                        return num(i)
            if name == "count":
                return num(sum(1 for x in o if dd.leq(x, args[0])))
            return self.unk("tuple." + name)
        if isinstance(o, MethV):
            return self.unk("method on view")
        if not isinstance(o, Ref):
            return self.unk("method %s on %r" % (name, o))
        ob = OBJS[o.oid]
        if ob.kind in ("list", "deque"):
            c = st.heap.get((o.oid, "#"))
            if isinstance(c, DD):
                c = restrict(c, st.assume)
            if name in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear") and self.write_hook:
                self.write_hook("listmut", o, name, args, st)
            if name == "append":
                if isinstance(c, tuple):
                    st.heap[(o.oid, "#")] = c + (args[0],)
                else:
                    st.heap[(o.oid, "#")] = apply(lambda x: x + (args[0],) if isinstance(x, tuple) else x, c)
                return None
            if name == "extend":
                it = self.iterate_value(args[0], st)
                if it is None:
                    st.heap[(o.oid, "#")] = self.unk("extend")
                else:
                    st.heap[(o.oid, "#")] = apply(lambda x: x + tuple(it) if isinstance(x, tuple) else x, c)
                return None
            if name == "copy":
                r = new_obj("list")
                st.heap[(r.oid, "#")] = c
                return r
            if name in ("count", "index") and isinstance(c, tuple) and not any(isinstance(x, Maybe) for x in c):
                eqs = [apply(lambda p, q: self.equal(p, q, st, fr), x, args[0]) for x in c]
                if name == "count":
                    n = ZERO
                    for q in eqs:
                        n = self.binop(ast.Add(), n, ite(q, ONE, ZERO), st, fr)
                    return n
                if all(isinstance(q, bool) for q in eqs) and True in eqs:
                    return num(eqs.index(True))
                if not any(eqs) and fr is not None:
                    fr.raises.append((st.pc, "ValueError", st.copy()))
                    st.pc = False
                    return self.unk("raise ValueError")
            if name == "appendleft" and isinstance(c, tuple):
                st.heap[(o.oid, "#")] = (args[0],) + c
                return None
            if name == "index" and isinstance(c, tuple):
                for i, x in enumerate(c):
                    if dd.leq(x, args[0]):
                        return num(i)
                return R.of(atom("fn", "index", _safe(args[0])))
            if name == "pop" and isinstance(c, tuple) and c:
                i = -1
                if args and isinstance(args[0], R) and args[0].is_const():
                    i = int(args[0].const_val())
                if -len(c) <= i < len(c):
                    i %= len(c)
                    st.heap[(o.oid, "#")] = c[:i] + c[i + 1:]
                    return c[i]
            if name == "popleft" and isinstance(c, tuple) and c:
                st.heap[(o.oid, "#")] = c[1:]
                return c[0]
            if name == "insert" and isinstance(c, tuple) and isinstance(args[0], R) and args[0].is_const():
                l = list(c)
                l.insert(int(args[0].const_val()), args[1])
                st.heap[(o.oid, "#")] = tuple(l)
                return None
            if name == "remove" and isinstance(c, tuple):
                eqs = [apply(lambda p, q: self.equal(p, q, st, fr), x, args[0]) for x in c if not isinstance(x, Maybe)]
                if len(eqs) == len(c) and not any(eqs) and fr is not None:
                    fr.raises.append((st.pc, "ValueError", st.copy()))
                    st.pc = False
                    return None
                for i, x in enumerate(c):
                    if dd.leq(x, args[0]):
                        st.heap[(o.oid, "#")] = c[:i] + c[i + 1:]
                        return None
            if name == "reverse" and isinstance(c, tuple):
                st.heap[(o.oid, "#")] = c[::-1]
                return None
            if name == "sort" and isinstance(c, tuple):
                srt = self.ordered(list(c), kwargs, st, fr)
                if srt is not None:
                    st.heap[(o.oid, "#")] = tuple(srt)
                    return None
            if name == "clear":
                st.heap[(o.oid, "#")] = ()
                return None
            if name == "tolist":
                return o
            if name in ("astype", "tolist", "to_list", "to_numpy"):
                return o
            st.heap[(o.oid, "#")] = self.unk("list." + name)
            return self.unk("list." + name)
        if ob.kind in ("dict", "symdict", "array0"):
            if name in ("items", "values", "keys"):
                return MethV(o, name + "view")
            if name == "get":
                k = restrict(args[0], st.assume)
                dflt = args[1] if len(args) > 1 else None
                if isinstance(k, DD):
                    return apply(lambda x: self.method(o, "get", [x] + list(args[1:]), kwargs, st, fr), k)
                v = self.dict_get(st, o, k)
                return apply(lambda x: dflt if x is MISSING else x, v)
            if name == "update":
                if args:
                    if not self.dict_update(st, o, args[0]):
                        it = self.iterate_value(args[0], st)
                for k, v in kwargs.items():
                    self.dict_set(st, o, k, v)
                return None
            if name == "copy":
                r = new_obj("dict")
                st.heap[(r.oid, "#keys")] = ()
                for c, k, v in self.dict_items(st, o):
                    self.dict_set(st, r, k, v if c is True else ite(c, v, MISSING))
                return r
            if name == "pop" and not isinstance(args[0], DD):
                v = restrict(self.dict_get(st, o, args[0]), st.assume)
                if v is MISSING and len(args) > 1:
                    return args[1]
                if v is MISSING:
                    self.delitem(o, args[0], st, fr)
                    return self.unk("raise KeyError")
                self.delitem(o, args[0], st, fr)
                if isinstance(v, DD) and any(l is MISSING for l in dd.terminals(v)):
                    if len(args) > 1:
                        return apply(lambda x, y: y if x is MISSING else x, v, args[1])
                    return self._strip_missing(v)
                return v
            if name == "popitem":
                it = self.dict_items(st, o)
                if it and it[-1][0] is True:
                    self.delitem(o, it[-1][1], st, fr)
                    return (it[-1][1], it[-1][2])
            if name == "setdefault" and not isinstance(args[0], DD):
                v = restrict(self.dict_get(st, o, args[0]), st.assume)
                d = args[1] if len(args) > 1 else None
                if v is MISSING or isinstance(v, DD) and any(l is MISSING for l in dd.terminals(v)):
                    v = apply(lambda x, y: y if x is MISSING else x, v, d)
                    self.dict_set(st, o, args[0], v)
                return v
            if name == "clear":
                if self.write_hook:
                    self.write_hook("clear", o, None, None, st)
                for k in self.dict_keys(st, o):
                    st.heap[(o.oid, "k", k)] = MISSING
                return None
            if name == "tolist":
                return o
            return self.unk("dict." + name)
        if ob.kind in ("set", "symset"):
            if name == "add":
                self.set_add(st, o, args[0])
                if self.write_hook:
                    self.write_hook("setadd", o, args[0], True, st)
                return None
            if name in ("remove", "discard"):
                cur = self.contains(o, args[0], st, fr)
                if name == "remove" and cur is False and fr is not None:
                    fr.raises.append((st.pc, "KeyError", st.copy()))
                    st.pc = False
                    return None
                self.dict_set(st, o, args[0], False)
                return None
            if name == "clear":
                for k in self.dict_keys(st, o):
                    st.heap[(o.oid, "k", k)] = False
                return None
            if name == "pop" and not args:
                it = self.set_items(st, o)
                if it and not isinstance(it[0], Maybe):
                    self.dict_set(st, o, it[0], False)
                    return it[0]
            if name in ("difference_update", "intersection_update", "symmetric_difference_update"):
                t = {"difference_update": ast.Sub, "intersection_update": ast.BitAnd}.get(name, ast.BitXor)
                for a in args:
                    r = self.setop(t, o, a, st)
                    m = self.members(r, st)
                    if m is None:
                        self.note("set." + name)
                        return None
                    for k in set(self.dict_keys(st, o)) | set(m):
                        self.dict_set(st, o, _unhk(k), m.get(k, False))
                return None
            if name == "isdisjoint":
                m = self.members(self.setop(ast.BitAnd, o, args[0], st), st)
                if m is not None:
                    r = True
                    for c in m.values():
                        r = AND(r, NOT(c))
                    return r
            if name == "issuperset":
                m = self.members(self.setop(ast.Sub, self.new_set(st, self.iterate_value(args[0], st) or []), o, st), st)
                if m is not None and self.iterate_value(args[0], st) is not None:
                    r = True
                    for c in m.values():
                        r = AND(r, NOT(c))
                    return r
            if name == "copy":
                return self.new_set(st, self.set_items(st, o))
            if name == "update":
                for a in args:
                    for x in self.iterate_value(a, st) or []:
                        c = True
                        if isinstance(x, Maybe):
                            c, x = x.k
                        self.set_add(st, o, x, c)
                return None
            if name in ("union", "difference", "intersection", "symmetric_difference"):
                t = {"union": ast.BitOr, "difference": ast.Sub, "intersection": ast.BitAnd}.get(name, ast.BitXor)
                r = o
                for a in args:
                    r = self.setop(t, r, a, st)
                    if not isinstance(r, Ref):
                        return r
                return r if args else self.new_set(st, self.set_items(st, o))
            if name == "issubset":
                it = self.iterate_value(o, st)
                other = self.iterate_value(args[0], st)
                if it is not None and other is not None:
                    r = True
                    for x in it:
                        c = True
                        if isinstance(x, Maybe):
                            c, x = x.k
                        m = False
                        for y in other:
                            cy = True
                            if isinstance(y, Maybe):
                                cy, y = y.k
                            m = OR(m, AND(cy, self.equal(x, y, st, fr)))
                        r = AND(r, OR(NOT(c), m))
                    return r
                return self.B("issubset", sym("obj%d" % o.oid), _safe(args[0]))
            return self.unk("set." + name)
        return self.unk("method %s" % name)


EXC_NAMES = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
             and issubclass(getattr(builtins, n), BaseException)}


def exc_name(v):
    if isinstance(v, ClassV):
        return v.k[0].name
    if isinstance(v, BuiltinV):
        return v.k[0]
    if isinstance(v, ExtV):
        return v.k[0].rsplit(".", 1)[-1]
    if isinstance(v, R):
        a = v.as_atom()
        if a is not None and a.kind == "exception":
            return a.args[0]
    return "Exception?"


def exc_match(P, name, handlers):
    for h in handlers:
        if h in ("BaseException", "Exception") or h == name:
            return True
        if name in EXC_NAMES and h in EXC_NAMES:
            if issubclass(getattr(builtins, name), getattr(builtins, h)):
                return True
        c = P.classes.get(name)
        if c is not None and c.subclass_of(h):
            return True
        if c is not None and h in EXC_NAMES:
            for b in c.mro:
                if isinstance(b, str) and b in EXC_NAMES and issubclass(getattr(builtins, b), getattr(builtins, h)):
                    return True
    return False


def is_exception(cls):
    return any(isinstance(c, str) and c in EXC_NAMES for c in cls.mro)


def _hk(k):
    """hashable key"""
    return dd.lkey(k) if isinstance(k, (str, bool)) or k is None or isinstance(k, tuple) else k


_UNHK = {}


def _unhk(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] in ("str", "bool", "NoneType") and not isinstance(k[1], tuple):
            return k[1]
        if k and k[0] == "t":
            return tuple(_unhk(x) for x in k[1:])
    return k


def _safe(v, interp=None, st=None):
    """Turn any abstract value into a hashable atom argument."""
    if isinstance(v, DD):
        return v
    if isinstance(v, Ref):
        o = OBJS[v.oid]
        if interp is not None and st is not None:
            if o.kind in ("list", "deque"):
                c = st.heap.get((v.oid, "#"))
                if isinstance(c, tuple):
                    return ("list",) + tuple(_safe(x, interp, st) for x in c)
            if o.kind in ("dict",) and o.path is None:
                return ("dict",) + tuple((_safe(k, interp, st), _safe(x, interp, st)) for c, k, x in interp.dict_items(st, v))
        return v
    if isinstance(v, tuple):
        return tuple(_safe(x, interp, st) for x in v)
    return v


def _mentions_unk(v):
    for _, l in dd.leaves(v):
        if isinstance(l, R):
            for a in l.atoms():
                if has_unk(a):
                    return True
    return False


def has_unk(a, seen=None):
    if a.kind == "unk":
        return True
    for x in a.args:
        if isinstance(x, R):
            for b in x.atoms():
                if has_unk(b):
                    return True
    return False


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
