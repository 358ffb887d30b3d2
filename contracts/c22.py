"""C22: comparison of transforms"""
from .common import *

FUNCTIONS = ["Transform.__eq__", "Transform.isclose", "Transform.__init__"]


def two(e, g):
    """every entry of R and p is arbitrary here: the statement does not need a rotation"""
    a = [mat("a", 3, 3), vec("ap")]
    b = [mat("b", 3, 3), vec("bp")]
    return g.Transform(*a), g.Transform(*b), a, b


def entries(a, b):
    return list(zip(a[0].ravel().tolist() + a[1].tolist(), b[0].ravel().tolist() + b[1].tolist()))


def pybool(e, label, x):
    """result of a comparison as used by the caller"""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return T.TRUE if x else T.FALSE
    if isinstance(x, Bo):
        return x
    if isinstance(x, np.ndarray) and x.shape == ():
        return T.bo(x.item())
    e.check(label, False, "comparison returned %r" % (x,))
    return T.FALSE


def equality(e):
    g = G(e)
    A, B, a, b = two(e, g)
    fr = Snapshot(A.R, A.p, B.R, B.p)
    r = pybool(e, "A == B is a truth value", A == B)
    spec = [T.absv(x - y) <= F(1e-8) + F(1e-6) * T.absv(y) for x, y in entries(a, b)]
    if bool(r):
        e.ensure_all("A == B is false whenever an entry differs by more", spec)
    else:
        e.ensure("A == B is true when no entry differs by more", bnot(band(spec)))
    fr.ensure(e)


def negation(e):
    g = G(e)
    A, B, a, b = two(e, g)
    # one entry decides: contrast the two operators on pairs that differ in an arbitrary single entry
    r = pybool(e, "A == B is a truth value", A == B)
    n = pybool(e, "A != B is a truth value", A != B)
    if bool(r):
        e.ensure("A != B is the negation of A == B", bnot(n))
    else:
        e.ensure("A != B is the negation of A == B", n)


def reflexive(e):
    g = G(e)
    A, B, a, b = two(e, g)
    e.ensure("A == A", pybool(e, "A == A is a truth value", A == A))
    tol = var("tol")
    e.assume(tol >= 0)
    e.ensure("A.isclose(A, tol)", pybool(e, "isclose is a truth value", A.isclose(A, tol)))


def isclose(e):
    g = G(e)
    A, B, a, b = two(e, g)
    if e.choose(2):
        tol = var("tol")
        e.assume(tol >= 0)
        r = A.isclose(B, tol) if e.choose(2) else A.isclose(B, tol=tol)
    else:
        tol = Re.const(F(1e-6))
        r = A.isclose(B)
    r = pybool(e, "isclose is a truth value", r)
    if bool(r):
        e.ensure_all("isclose is false when an entry differs by more than tol + 1e-5 |B|", [T.absv(x - y) <= tol + F(100001, 10**10) * T.absv(y) for x, y in entries(a, b)])
    else:
        e.ensure("isclose is true when every entry differs by at most tol", bnot(band([T.absv(x - y) <= tol for x, y in entries(a, b)])))


CONTRACTS = [("Transform.__eq__", equality), ("Transform.__ne__", negation), ("reflexivity", reflexive), ("Transform.isclose", isclose)]
