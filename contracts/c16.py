"""C16: subproblem 2"""
from .common import *
from .spfacts import *

FUNCTIONS = ["subproblem2"]
EPS = F(1, 2**52)
ASSUMPTIONS = ["subproblem2 treats a squared half distance of the intersection points below 2.3e-16 in absolute value as zero; "
               "the contract covers exact tangency and values of at least 2.3e-16"]


def axes(e):
    """any two unit axes that are not parallel: k1 = z, k2 = (sigma, 0, kappa) in some right-handed frame, sigma > 0"""
    R, (ex, ey, ez) = frame(e)
    u = unit("ks", 2)
    ka, si = u[0], u[1]
    T.CTX.atoms[T.CTX.byname["ks1"]].nonneg = True
    e.assume(si > 0)
    e.assume(si * si >= EPS)
    return R, ez, inframe(R, si, 0, ka), ey, ka, si


def run(e, p, q, k1, k2):
    sp1 = SP1x(e)
    g = G(e)
    g.subproblem1 = sp1
    fr = Snapshot(p, q, k1, k2)
    r = g.subproblem2(p, q, k1, k2)
    fr.ensure(e)
    e.check("the result is a list of pairs", isinstance(r, (list, tuple)) and all(len(x) == 2 for x in r))
    return [(Re.of(a), Re.of(b)) for a, b in r]


def solvable(e, kind):
    """every instance with a solution: c is the common point, p = rot(k2,-t2) c and q = rot(k1,t1) c"""
    R, k1, k2, n, ka, si = axes(e)
    a0, a1 = var("a0"), var("a1")
    if kind == "touch":
        y = Re.const(0)
        e.assume(a0 != 0)
        e.assume(a1 != 0)
    elif kind == "p on k2":
        y = a0 = Re.const(0)
        e.assume(a1 != 0)
    elif kind == "q on k1":
        y = a1 = Re.const(0)
        e.assume(a0 != 0)
    else:
        y = pos(e, "y")
        e.assume(y * y >= EPS)
        y = y if kind == "cross +" else -y
    c = a0 * k1 + a1 * k2 + y * n
    t1, t2 = var("t1"), var("t2")
    p, q = mm(rot(k2, -t2), c), mm(rot(k1, t1), c)
    r = run(e, p, q, k1, k2)
    for u1, u2 in r:
        e.ensure_all("q = rot(k1, t1) rot(k2, t2) p", eqs(mm(rot(k1, u1), rot(k2, u2), p), q))
    e.check("the list is not empty when the cones intersect", len(r) > 0)
    e.check("at most two solutions", len(r) <= 2)
    if kind in ("touch", "cross +", "cross -"):
        c1, s1 = T.cossin(t1)
        c2, s2 = T.cossin(t2)
        goals = []
        for u1, u2 in r:
            a, b = T.cossin(u1)
            c, d = T.cossin(u2)
            goals.append(band([T.lit(a - c1, "="), T.lit(b - s1, "="), T.lit(c - c2, "="), T.lit(d - s2, "=")]))
        e.ensure("every solution is contained modulo 2 pi", bor(goals))


def unsolvable(e):
    """p and q of equal length whose cones do not meet: D < 0, where any common point would have a squared n component D"""
    R, k1, k2, n, ka, si = axes(e)
    a0, a1, D = var("a0"), var("a1"), var("D")
    e.assume(D <= -EPS)
    rp2, rq2 = a0 * a0 * (1 - ka * ka) + D, a1 * a1 * (1 - ka * ka) + D
    e.assume(rp2 >= 0)
    e.assume(rq2 >= 0)
    rp, rq = T.sqrt(rp2, check=False), T.sqrt(rq2, check=False)
    c2, s2 = T.cossin(var("t2"))
    c1, s1 = T.cossin(var("t1"))
    ex1 = mm(R, arr([1, 0, 0]))
    ex2 = cross(n, k2)
    p = (a0 * ka + a1) * k2 + rp * (c2 * ex2 + s2 * n)
    q = (a0 + a1 * ka) * k1 + rq * (c1 * ex1 + s1 * n)
    e.ensure("lemma: p and q have equal length", T.lit(dot(p, p) - dot(q, q), "="))
    # lemma: a common point c has |c| = |p|, c.k2 = p.k2, c.k1 = q.k1; its n component y satisfies y^2 = D
    y = var("y")
    c = a0 * k1 + a1 * k2 + y * n
    e.ensure_all("lemma: components of a common point", [T.lit(dot(c, k2) - dot(p, k2), "="), T.lit(dot(c, k1) - dot(q, k1), "="),
                                                        T.lit(dot(c, c) - dot(p, p) - (y * y - D), "=")])
    r = run(e, p, q, k1, k2)
    e.check("the list is empty when the cones do not intersect", len(r) == 0)


def parallel(e):
    k1 = unit("k")
    s = Re.const([1, -1][e.choose(2)])
    k2 = k1 * s
    # |p| = |q|
    R, _ = rotmat("f")
    p = vec("p")
    q = mm(R, p)
    r = run(e, p, q, k1, k2)
    e.check("the list is empty for parallel axes", len(r) == 0)


CONTRACTS = [("subproblem2: " + k, (lambda e, k=k: solvable(e, k))) for k in ("cross +", "cross -", "touch", "p on k2", "q on k1")] + \
    [("subproblem2: no intersection", unsolvable), ("subproblem2: parallel axes", parallel)]
