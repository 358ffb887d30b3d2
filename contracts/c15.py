"""C15: subproblems 0 and 1"""
from .common import *
from .spfacts import *

FUNCTIONS = ["subproblem0", "subproblem1"]
EPS = F(1, 2**52)


def sp1(e):
    g = G(e)
    R, (ex, ey, k) = frame(e)
    n, rho, al, t = pos(e, "n"), pos(e, "rho"), var("al"), var("t")
    c, s = T.cossin(t)
    p = inframe(R, rho, 0, al)
    q = inframe(R, rho * c, rho * s, al)
    form = ("list", "array")
    pa, qa, ka = forms(e, p, form), forms(e, q, ("array",)), forms(e, k * n, ("array",))
    if not isinstance(pa, list):
        ka = list(ka.tolist()) if e.choose(2) else ka
    fr = Snapshot(pa, qa, ka)
    th = g.subproblem1(pa, qa, ka)
    th = Re.of(th)
    fr.ensure(e)
    e.ensure_all("theta is in [-pi, pi]", [th >= -T.PI(), th <= T.PI()])
    B = mm(rot(k, th), p)
    if th.isconst:
        e.ensure_all("vectors closer than 2e-8: rot(k/|k|, theta) p = q to within 2e-8", [dot(B - q, B - q) <= F(4, 10**16)])
    else:
        e.ensure_all("rot(k/|k|, theta) p = q", eqs(B, q))


def sp1_axis(e):
    """p on the axis: q = p, an angle is still returned"""
    g = G(e)
    k = unit("k")
    n, al = pos(e, "n"), var("al")
    th = Re.of(g.subproblem1(k * al, k * al, k * n))
    e.ensure_all("theta is in [-pi, pi]", [th >= -T.PI(), th <= T.PI()])
    e.ensure_all("rot(k/|k|, theta) p = q", eqs(mm(rot(k, th), k * al), k * al))


def sp0(e):
    g = G(e)
    R, (ex, ey, k) = frame(e)
    rho, h = pos(e, "rho"), var("h")
    e.assume(h <= T.PI() / 2)
    e.assume(h >= -T.PI() / 2)
    c, s = T.cossin(2 * h)
    p = inframe(R, rho, 0, 0)
    q = inframe(R, rho * c, rho * s, 0)
    fr = Snapshot(p, q, k)
    th = Re.of(g.subproblem0(p, q, k))
    fr.ensure(e)
    e.ensure_all("theta is in [-pi, pi]", [th >= -T.PI(), th <= T.PI()])
    e.ensure_all("rot(k, theta) p = q", eqs(mm(rot(k, th), p), q))


def sp0_rejects(e):
    g = G(e)
    R, (ex, ey, k) = frame(e)
    rho, al = var("rho", nonneg=True), var("al")
    a = inframe(R, rho, 0, al)
    b = vec("b")
    e.assume(al * al * 10**6 > rho * rho + al * al)       # more than 1e-3 off
    args = (a, b, k) if e.choose(2) else (b, a, k)
    raises(e, "vectors that are not perpendicular to k are rejected", lambda: g.subproblem0(*args))


CONTRACTS = [("subproblem1", sp1), ("subproblem1 on the axis", sp1_axis), ("subproblem0", sp0), ("subproblem0 domain", sp0_rejects)]
