"""C17: subproblem 3"""
from .common import *
from .spfacts import *

FUNCTIONS = ["subproblem3", "subproblem1"]
ASSUMPTIONS = ["subproblem1 treats unit vectors closer than 1.5e-8 as equal; directions that differ by less without being equal are treated as equal"]


def setting(e):
    """arbitrary p, q not parallel to the unit axis k, in a frame with z = k and x along the part of p perpendicular to k;
    b is the angle from p to q about k"""
    R, (ex, ey, k) = frame(e)
    rho, mu, al, be = pos(e, "rho"), pos(e, "mu"), var("al"), var("be")
    kind = e.choose(2)
    if kind == 0:
        cb, sb = Re.const(1), Re.const(0)
    else:
        b = var("b")
        cb, sb = T.cossin(b)
        e.assume(2 - 2 * cb >= F(1, 2**52))       # see ASSUMPTIONS
    p = inframe(R, rho, 0, al)
    q = inframe(R, mu * cb, mu * sb, be)
    return k, p, q, rho, mu, al, be, cb, sb


def angles(e, r):
    e.check("the result is a list", isinstance(r, (list, tuple)))
    return [Re.of(x) for x in r]


def sound(e):
    g = G(e)
    k, p, q, rho, mu, al, be, cb, sb = setting(e)
    d = var("d", nonneg=True)
    e.assume(d >= 0)
    fr = Snapshot(p, q, k)
    r = angles(e, g.subproblem3(p, q, k, d))
    fr.ensure(e)
    e.check("at most two solutions", len(r) <= 2)
    for t in r:
        v = q + mm(rot(k, t), p)
        e.ensure("|q + rot(k, theta) p| = d", T.lit(dot(v, v) - d * d, "="))


def complete(e):
    g = G(e)
    k, p, q, rho, mu, al, be, cb, sb = setting(e)
    # an arbitrary solution b + u
    u = var("u")
    cu, su = T.cossin(u)
    e.assume(su >= 0 if e.choose(2) else su < 0)
    c, s = cb * cu - sb * su, sb * cu + cb * su
    v = q + mm(rodrigues(k, c, s), p)
    w = rho * rho + mu * mu + 2 * rho * mu * cu
    e.ensure("lemma: the distance in the plane is real", T.lit((mu + rho * cu) * (mu + rho * cu) + rho * rho * su * su - w, "="))
    e.assume(w >= 0)        # a sum of squares by the lemma
    d2 = (al + be) * (al + be) + w
    e.ensure("lemma: distance reached by the rotation b + u", T.lit(dot(v, v) - d2, "="))
    d = T.sqrt(d2, check=False)
    r = angles(e, g.subproblem3(p, q, k, d))
    e.check("the list is not empty when a rotation gives the distance", len(r) > 0)
    goals = []
    for x in r:
        cx, sx = T.cossin(x)
        goals.append(band([T.lit(cx - c, "="), T.lit(sx - s, "=")]))
    e.ensure("every solution is contained modulo 2 pi", bor(goals))


CONTRACTS = [("subproblem3 soundness", sound), ("subproblem3 completeness", complete)]
