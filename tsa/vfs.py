"""Files of the analysed program, kept in the abstract heap: what one function
writes (json, csv) another one reads back."""
from . import dd
from .interp import Ref, OBJS, _Val, BuiltinV, new_obj, num, MISSING, UNDEF, Maybe, ClassV, _unhk
from .poly import R


class Frozen(_Val):
    """immutable image of a json document"""
    __slots__ = ()

    def __hash__(self):
        return hash(self.k)


def fail(st, fr, exc):
    fr.raises.append((st.pc, exc, st.copy()))
    st.pc = False


class VFS:
    def __init__(self, I, st):
        self.I = I
        self.files = I.new_dict(st, [])
        self.not_json = []
        i = I.intrinsics
        i["builtin:open"] = self.open
        i["ext:json.load"] = self.load
        i["ext:json.dump"] = self.dump
        i["ext:os.path.join"] = self.join
        i["ext:os.path.isfile"] = i["ext:os.path.exists"] = self.isfile
        i["ext:os.makedirs"] = lambda I, a, k, st, fr: None
        i["ext:os.listdir"] = self.listdir
        i["pandas._write_table"] = self.wtable
        i["pandas._read_table"] = self.rtable
        i["pandas._numeric_text"] = self.numeric
        i["pandas._to_type"] = self.to_type
        i["pandas._to_number"] = lambda I, a, k, st, fr, fv: num(int(a[0]))

    # paths -------------------------------------------------------------
    def join(self, I, a, k, st, fr):
        def f(*xs):
            out = []
            for x in xs:
                out.append(x if isinstance(x, str) else "<%s>" % (x,))
            return "/".join(x.strip("/") if n else x.rstrip("/") for n, x in enumerate(out))
        return dd.apply(f, *a)

    def isfile(self, I, a, k, st, fr):
        v = I.dict_get(st, self.files, a[0])
        return dd.apply(lambda x: x is not MISSING, v)

    def listdir(self, I, a, k, st, fr):
        d = a[0].rstrip("/") + "/"
        out = []
        for p in I.dict_keys(st, self.files):
            p = _unhk(p)
            if p.startswith(d):
                out.append(p[len(d):].split("/")[0])
        return I.new_list(st, sorted(set(out)))

    # documents ----------------------------------------------------------
    def put(self, st, path, doc):
        """doc: python structure of abstract values"""
        self.I.dict_set(st, self.files, path, self.freeze_py(doc))

    def get(self, st, path):
        return self.I.dict_get(st, self.files, path)

    def open(self, I, a, k, st, fr):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        path = a[0]
        if isinstance(mode, str) and "r" in mode and "+" not in mode:
            v = I.dict_get(st, self.files, path)
            if v is MISSING:
                fail(st, fr, "FileNotFoundError")
                return UNDEF
        o = new_obj("object", None, path="file")
        st.heap[(o.oid, "a", "name")] = path
        return o

    def load(self, I, a, k, st, fr):
        path = I.getattr_(a[0], "name", st, fr)
        v = I.dict_get(st, self.files, path)
        return dd.apply(lambda x: self.thaw(x, st) if isinstance(x, Frozen) else I.unk("json.load of " + str(path)), v)

    def dump(self, I, a, k, st, fr):
        path = I.getattr_(a[1], "name", st, fr)
        bad = []
        doc = self.freeze(a[0], st, bad, "")
        if bad:
            self.not_json += [(path, b) for b in bad]
            fail(st, fr, "TypeError")
            return None
        I.dict_set(st, self.files, path, doc)
        return None

    def freeze(self, v, st, bad, at):
        I = self.I

        def leaf(x):
            if isinstance(x, (R, str, bool)) or x is None:
                return x
            if isinstance(x, tuple):
                return Frozen("list", tuple(self.freeze(y, st, bad, at + "[]") for y in x))
            if isinstance(x, Ref):
                o = OBJS[x.oid]
                if o.kind == "list":
                    return Frozen("list", tuple(y if not isinstance(y, Maybe) else Frozen("maybe", y.k[0], self.freeze(y.k[1], st, bad, at))
                                                for y in [z if isinstance(z, Maybe) else self.freeze(z, st, bad, at + "[]")
                                                          for z in st.heap[(x.oid, "#")]]))
                if o.kind == "dict":
                    out = []
                    for c, k, y in I.dict_items(st, x):
                        if isinstance(k, R) or k is None or isinstance(k, bool):
                            k = k if isinstance(k, str) else "%s" % (k,)
                        elif not isinstance(k, str):
                            bad.append((at, "key %s" % (k,)))
                            continue
                        out.append((c, k, self.freeze(y, st, bad, at + "." + k)))
                    return Frozen("dict", tuple(out))
            bad.append((at, "%s is not json serialisable" % (x,)))
            return x
        return dd.apply(leaf, v)

    def freeze_py(self, v):
        if isinstance(v, dict):
            return Frozen("dict", tuple((True, k, self.freeze_py(x)) for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return Frozen("list", tuple(self.freeze_py(x) for x in v))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return num(v)
        return v

    def thaw(self, v, st):
        I = self.I

        def leaf(x):
            if not isinstance(x, Frozen):
                return x
            if x.k[0] == "list":
                return I.new_list(st, [Maybe(y.k[1], self.thaw(y.k[2], st)) if isinstance(y, Frozen) and y.k[0] == "maybe"
                                       else self.thaw(y, st) for y in x.k[1]])
            d = I.new_dict(st, [])
            for c, k, y in x.k[1]:
                y = self.thaw(y, st)
                I.dict_set(st, d, k, y if c is True else dd.ite(c, y, MISSING))
            return d
        return dd.apply(leaf, v)

    # tables -------------------------------------------------------------
    def wtable(self, I, a, k, st, fr, fv):
        I.dict_set(st, self.files, a[0], a[1])
        return None

    def rtable(self, I, a, k, st, fr, fv):
        v = I.dict_get(st, self.files, a[0])
        if v is MISSING:
            fail(st, fr, "FileNotFoundError")
            return UNDEF
        return v

    def to_type(self, I, a, k, st, fr, fv):
        t = a[1]
        if t == "str" or (isinstance(t, BuiltinV) and t.k[0] == "str"):
            return a[0] if isinstance(a[0], str) else str(int(a[0].const_val()))
        return a[0]

    def numeric(self, I, a, k, st, fr, fv):
        ks = st.heap[(a[0].oid, "#")]
        return bool(ks) and all(isinstance(x, str) and x.isdigit() for x in ks)
