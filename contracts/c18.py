"""C18: subproblem 4"""
from .common import *
from .spfacts import *

FUNCTIONS = ["subproblem4", "hat"]


def setting(e):
    # any p, q not parallel to k: x along the part of p perpendicular to k, b the angle from p to q
    R, (ex, ey, k) = frame(e)
    rho, mu, al, be, b = pos(e, "rho"), pos(e, "mu"), var("al"), var("be"), var("b")
    cb, sb = T.cossin(b)
    p = inframe(R, rho, 0, al)
    q = inframe(R, mu * cb, mu * sb, be)
    return k, p, q, cb, sb


def sound(e):
    g = G(e)
    k, p, q, cb, sb = setting(e)
    d = var("d")
    fr = Snapshot(p, q, k)
    r = [Re.of(x) for x in g.subproblem4(p, q, k, d)]
    fr.ensure(e)
    e.check("at most two solutions", len(r) <= 2)
    for t in r:
        e.ensure("p . rot(k, theta) q = d", T.lit(dot(p, mm(rot(k, t), q)) - d, "="))


def complete(e):
    g = G(e)
    k, p, q, cb, sb = setting(e)
    # an arbitrary rotation u - b
    u = var("u")
    cu, su = T.cossin(u)
    e.assume(cu >= 0 if e.choose(2) else cu < 0)
    c, s = cb * cu + sb * su, cb * su - sb * cu
    d = dot(p, mm(rodrigues(k, c, s), q))
    r = [Re.of(x) for x in g.subproblem4(p, q, k, d)]
    e.check("the list is not empty when a rotation gives the displacement", len(r) > 0)
    goals = []
    for x in r:
        cx, sx = T.cossin(x)
        goals.append(band([T.lit(cx - c, "="), T.lit(sx - s, "=")]))
    e.ensure("every solution is contained modulo 2 pi", bor(goals))


def onaxis(e):
    """p or q along the axis: the displacement does not depend on the angle"""
    g = G(e)
    R, (ex, ey, k) = frame(e)
    al, be = var("al"), var("be")
    v = inframe(R, pos(e, "mu"), 0, be) if e.choose(2) else be * k
    p, q = (al * k, v) if e.choose(2) else (v, al * k)
    d = var("d")
    fr = Snapshot(p, q, k)
    r = [Re.of(x) for x in g.subproblem4(p, q, k, d)]
    fr.ensure(e)
    for t in r:
        e.ensure("p . rot(k, theta) q = d", T.lit(dot(p, mm(rot(k, t), q)) - d, "="))
    if not r:
        e.ensure("the list is empty only when no rotation gives the displacement", T.lit(dot(p, q) - d, "!="))


CONTRACTS = [("subproblem4 on the axis", onaxis), ("subproblem4 soundness", sound), ("subproblem4 completeness", complete)]
