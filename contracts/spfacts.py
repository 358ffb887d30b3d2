"""Contracts of the subproblems, used as stubs at their call sites."""
from .common import *


class SP1x:
    """callee contract of subproblem1 (C15), explicit form: for |p| = |q| and k.p = k.q (k a unit vector) the result t satisfies
    rot(k,t) p = q; when p is not along k this determines cos t = p'.q'/|p'|^2, sin t = k.(p x q)/|p'|^2 (p' the part perpendicular to k)"""

    def __init__(self, e):
        self.e = e
        self.n = 0
        self.memo = []

    def __call__(self, p, q, k):
        e = self.e
        p, q, k = [arr([Re.of(x) for x in asarr(v).ravel().tolist()]) for v in (p, q, k)]
        for a, b, c, t in self.memo:
            if same_vec(a, p) and same_vec(b, q) and same_vec(c, k):
                return t
        e.ensure_all("subproblem1 is called with vectors of equal length at equal angles to a unit axis",
                     [T.lit(dot(p, p) - dot(q, q), "="), T.lit(dot(p, k) - dot(q, k), "="), T.lit(dot(k, k) - 1, "=")])
        self.n += 1
        pk = dot(p, k)
        w = dot(p, p) - pk * pk
        w2 = getattr(self, "simplify", lambda x: x)(w)
        if bool(w2 != 0):
            c, s = (dot(p, q) - pk * pk) / w2, dot(k, cross(p, q)) / w2
            t = T._angle_atom("sp1_%d" % self.n, lambda den: scaled(den, c, s), -1, 1)
        else:
            # p = q lies on the axis: any angle
            t = var("sp1_%d" % self.n)
            e.assume(t <= T.PI())
            e.assume(t >= -T.PI())
        self.memo.append((p, q, k, t))
        return t


def scaled(den, c, s):
    if den != 1:
        raise T.Unsupported("fraction of an angle")
    return c, s


class SP1:
    """callee contract of subproblem1: for |p| = |q| and k.p = k.q (k a unit vector) the result t satisfies rot(k,t) p = q"""

    def __init__(self, e):
        self.e = e
        self.calls = []

    def __call__(self, p, q, k):
        e = self.e
        p, q, k = [arr([Re.of(x) for x in asarr(v).ravel().tolist()]) for v in (p, q, k)]
        e.ensure_all("subproblem1 is called with vectors of equal length at equal angles to a unit axis",
                     [T.lit(dot(p, p) - dot(q, q), "="), T.lit(dot(p, k) - dot(q, k), "="), T.lit(dot(k, k) - 1, "=")])
        for (p2, q2, k2, t) in self.calls:
            if same_vec(p, p2) and same_vec(q, q2) and same_vec(k, k2):
                return t
        t = var("sp1_%d" % len(self.calls))
        e.assume(t <= T.PI())
        e.assume(t >= -T.PI())
        c, s = T.cossin(t)
        for x, y in zip(mm(rodrigues(k, c, s), p).tolist(), q.tolist()):
            e.hyp(x - y, "rot(k, t) p = q by the contract of subproblem1")
        for x, y in zip(mm(rodrigues(k, c, -s), q).tolist(), p.tolist()):
            e.hyp(x - y, "rot(k, -t) q = p by the contract of subproblem1")
        self.calls.append((p, q, k, t))
        return t


def same_vec(a, b):
    return all(not T.pclear((Re.of(x) - Re.of(y)).p) for x, y in zip(a.tolist(), b.tolist()))


def frame(e, name="f"):
    """an arbitrary right-handed orthonormal frame: columns x, y, z"""
    R, q = rotmat(name)
    return R, [R[:, i].copy() for i in range(3)]


def inframe(R, x, y, z):
    return mm(R, arr([x, y, z]))


def pos(e, name):
    v = var(name, nonneg=True, nonzero=True)
    e.assume(v > 0)
    return v
