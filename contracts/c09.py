"""C09: slerp"""
from .common import *

FUNCTIONS = ["slerp"]
TOL2 = F(1, 10**10)      # (1e-5)^2


def pair(e):
    """two arbitrary unit quaternions u, v, written as v = u r with r a unit quaternion (r = u* v)"""
    u, r = unit("u", 4), unit("r", 4)
    v = qmul(u, r)
    e.ensure_all("lemma: v = u r is a unit quaternion with u.v = r0", [T.lit(dot(v, v) - 1, "="), T.lit(dot(u, v) - r[0], "=")])
    return u, v, r[0]


def slerp_contract(e):
    g = G(e)
    u0, u1, d = pair(e)
    r0, r1 = var("n0", nonneg=True, nonzero=True), var("n1", nonneg=True, nonzero=True)
    t = var("t")
    e.assume(t >= 0)
    e.assume(t <= 1)
    a, b = u0 * r0, u1 * r1
    fr = Snapshot(a, b)
    q = asarr(g.slerp(a, b, t))
    e.check("slerp returns a 4-vector", q.shape == (4,))
    fr.ensure(e)
    e.ensure("result is a unit quaternion", T.lit(dot(q, q) - 1, "="))
    neg = bool(d < 0)
    w0 = -u0 if neg else u0          # nearer of the two representatives
    dd = -d if neg else d
    x, y = dot(q, w0), dot(q, u1)
    # chord of the angle between the two rotations below 1e-5: both ends are within 1e-5 of the result
    on, e.checks_on = e.checks_on, False        # dd is within [-1,1]; the code's own call is checked where it is made
    th = T.acos(dd)
    e.checks_on = on
    c0, s0 = T.cossin(t * th)
    c1, s1 = T.cossin((1 - t) * th)
    exact = all(not T.pclear((z).p) for z in (x * x - c0 * c0, y * y - c1 * c1, x * y - c0 * c1))
    if exact:
        e.ensure_all("result is at angle t theta and (1-t) theta from the ends of the shorter arc",
                     [T.lit(z, "=") for z in (x * x - c0 * c0, y * y - c1 * c1, x * y - c0 * c1)])
        return
    e.ensure_all("nearly equal rotations: result is within 1e-5 of both", [2 - 2 * dd <= TOL2, 1 - x * x <= TOL2 / 2, 1 - y * y <= TOL2 / 2, x * y >= 0])


def slerp_ends(e):
    g = G(e)
    u0, u1, d = pair(e)
    k = e.choose(2)
    q = asarr(g.slerp(u0.copy(), u1.copy(), k))
    w = u1 if k else u0
    x = dot(q, w)
    e.ensure_all("t=%d gives q%d up to sign" % (k, k), [1 - x * x <= TOL2 / 2])


def slerp_rejects(e):
    g = G(e)
    a, b, d = pair(e)
    t = var("t")
    e.assume(t < 0 if e.choose(2) else t > 1)
    raises(e, "t outside [0,1] is rejected", lambda: g.slerp(a, b, t))


CONTRACTS = [("slerp", slerp_contract), ("slerp end points", slerp_ends), ("slerp domain", slerp_rejects)]
