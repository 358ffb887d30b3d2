"""C34: random and identity transforms"""
from .common import *
from pyvc import npshim

FUNCTIONS = ["random_R", "random_p", "random_transform", "identity_transform", "q2R", "hat"]


def source(e):
    """the random source: rand(*shape) yields arbitrary values in [0,1), not all zero when four are drawn"""
    n = [0]

    def rand(*dims):
        n[0] += 1
        dims = [int(Re.of(d).cval()) if isinstance(Re.of(d), Re) else d for d in dims]
        size = 1
        for d in dims:
            size *= d
        xs = []
        for i in range(size):
            x = var("rand%d_%d" % (n[0], i), nonneg=True)
            e.assume(x >= 0)
            e.assume(x < 1)
            xs.append(x)
        if size > 1:
            e.assume(bor([x > 0 for x in xs]))
        a = arr(xs)
        return a.reshape(tuple(dims)) if dims else xs[0]

    def uniform(lo, hi, size=None):
        s = () if size is None else (size,) if isinstance(size, (int, Re)) else tuple(size)
        return rand(*s) * (Re.of(hi) - Re.of(lo)) + Re.of(lo)

    def randn(*dims):
        n[0] += 1
        dims = [int(d) for d in dims]
        a = mat("randn%d" % n[0], *dims) if len(dims) == 2 else vec("randn%d_" % n[0], *dims)
        return a
    e.externals = {"rand": rand, "uniform": uniform, "randn": randn}


def rR(e):
    source(e)
    g = G(e)
    R = g.random_R()
    e.check("random_R returns a 3x3 matrix", shape_is(R, (3, 3)))
    e.ensure_all("random_R is a proper rotation matrix", is_rotation(R))


def rp(e):
    source(e)
    g = G(e)
    p = g.random_p()
    e.check("random_p returns a 3-vector", shape_is(p, (3,)))
    for x in p.tolist():
        e.ensure_all("random_p is in [0,1)^3", [x >= 0, x < 1])


def rT(e):
    source(e)
    g = G(e)
    X = g.random_transform()
    e.check("random_transform returns a 3x3 matrix and a 3-vector", shape_is(X.R, (3, 3)) and shape_is(X.p, (3,)))
    e.ensure_all("random_transform has a proper rotation matrix", is_rotation(X.R))
    for x in X.p.tolist():
        e.ensure_all("random_transform has a position in [0,1)^3", [x >= 0, x < 1])


def ident(e):
    g = G(e)
    I = g.identity_transform()
    e.ensure_all("identity_transform has R = I and p = 0", eqs(I.R, eye()) + eqs(I.p, [0, 0, 0]))
    R, p = mat("m", 3, 3), vec("p")
    X = g.Transform(R, p)
    for Y in (X * I, I * X):
        e.ensure_all("identity_transform is neutral", eqs(Y.R, R) + eqs(Y.p, p))


CONTRACTS = [("random_R", rR), ("random_p", rp), ("random_transform", rT), ("identity_transform", ident)]
