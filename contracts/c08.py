"""C08: rpy2R, R2rpy"""
from .common import *

FUNCTIONS = ["rpy2R", "R2rpy", "rot"]
EPS10 = F(2.220446049250313e-16) * 10


def rpy2r(e):
    g = G(e)
    a = vec("a")
    x = forms(e, a, ("list", "array", "tuple"))
    fr = Snapshot(x)
    R = g.rpy2R(x)
    ez, ey, ex = [0, 0, 1], [0, 1, 0], [1, 0, 0]
    e.ensure_all("rpy2R([r,p,y]) = Rz(y) Ry(p) Rx(r)", eqs(R, mm(rot(ez, a[2]), rot(ey, a[1]), rot(ex, a[0]))))
    e.check("rpy2R returns a 3x3 matrix", shape_is(R, (3, 3)))
    fr.ensure(e)


def r2rpy(e):
    g = G(e)
    R, q = rotmat("q")
    n = T.norm([R[0, 0], R[1, 0]])
    T.CTX.sqrt_hints.append(n)          # |R[2,1:3]| = |R[0:2,0]|
    fr = Snapshot(R)
    sing = bool(n <= EPS10)
    if sing:
        raises(e, "R2rpy raises at the pitch singularity", lambda: g.R2rpy(R))
        return
    r, p, y = [Re.of(t) for t in g.R2rpy(R)]
    ez, ey, ex = [0, 0, 1], [0, 1, 0], [1, 0, 0]
    e.ensure_all("rpy2R(R2rpy(R)) = R", eqs(mm(rot(ez, y), rot(ey, p), rot(ex, r)), R))
    cp = T.cos(p)
    e.ensure_all("cos(p) >= 0 and p in [-pi/2, pi/2]", [cp >= 0, p <= T.PI() / 2, p >= -T.PI() / 2])
    fr.ensure(e)


CONTRACTS = [("rpy2R", rpy2r), ("R2rpy", r2rpy)]
