"""Differential test of the interpreter's language model (stubs/snippets.py)
against Python itself."""
import importlib.util
import os

from .interp import FuncV, Ref, OBJS, R, _unhk, num
from .net import NetModel
from .checks.c11 import call


class Unknown(Exception):
    pass


def value(N, v):
    if isinstance(v, R):
        if not v.is_const():
            raise Unknown(str(v))
        return v.const_val()
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, tuple):
        return tuple(value(N, x) for x in v)
    if isinstance(v, Ref):
        k = OBJS[v.oid].kind
        if k in ("list", "deque"):
            c = N.st.heap.get((v.oid, "#"))
            if not isinstance(c, tuple):
                raise Unknown("list")
            return [value(N, x) for x in c]
        if k == "dict":
            out = {}
            for c, key, x in N.I.dict_items(N.st, v):
                if c is not True:
                    raise Unknown("maybe")
                out[value(N, key)] = value(N, x)
            return out
        if k == "set":
            return {value(N, x) for x in N.I.set_items(N.st, v)}
    raise Unknown(repr(v))


def norm(v):
    if isinstance(v, (list, tuple)):
        return type(v).__name__, [norm(x) for x in v]
    if isinstance(v, dict):
        return "dict", [(norm(k), norm(x)) for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return "set", sorted(map(repr, map(norm, v)))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    return "num", str(round(float(v), 9))


def run(verbose=False):
    from .common import program
    P = program(("snippets",))
    p = os.path.join(os.path.dirname(__file__), "stubs", "snippets.py")
    sp = importlib.util.spec_from_file_location("snippets", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    wrong, unknown, ok = [], [], 0
    for name in [n for n in vars(m) if n.startswith("s_")]:
        want = norm(getattr(m, name)())
        mod = P.modules["snippets"]
        N = NetModel(P)
        N.fr.module = mod
        try:
            v, exc = call(N, FuncV(mod.defs[name][1], mod, None, None))
            if exc:
                raise Unknown("raises %s %s" % (exc, N.I.log[:3]))
            got = norm(value(N, v))
        except Unknown as e:
            (unknown if N.I.log else wrong).append((name, str(e)[:100], N.I.log[:3]))
            continue
        except Exception as e:
            unknown.append((name, "%s: %s" % (type(e).__name__, e), N.I.log[:3]))
            continue
        if got == want:
            ok += 1
        else:
            (unknown if N.I.log else wrong).append((name, "got %s want %s" % (got, want), N.I.log[:3]))
    return ok, wrong, unknown


if __name__ == "__main__":
    import sys
    import threading
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)

    def go():
        ok, wrong, unknown = run()
        for t, l in (("WRONG", wrong), ("unknown", unknown)):
            for x in l:
                print(t, *x)
        print(ok, "ok", len(wrong), "wrong", len(unknown), "unknown")
    t = threading.Thread(target=go)
    t.start()
    t.join()
