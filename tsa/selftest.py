"""Sanity of the algebra and of the source model (used as setup_cmd)."""


def run(common):
    from . import poly as P
    x, y = P.R.of(P.atom("x")), P.R.of(P.atom("y"))
    assert ((x + y) * (x - y) - (x * x - y * y)).is_zero()
    assert not (x * y - x).is_zero()
    prog = common.program()
    n = len(common.concrete(prog))
    print("selftest: %d concrete component classes" % n)
    return 0 if n > 20 else 1
