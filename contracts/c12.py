"""C12: forward kinematics of a chain of any length"""
from .chain import *

FUNCTIONS = ["fwdkin", "apply_robot_aux_transforms", "rot", "hat", "Transform.__init__", "Transform.__mul__", "Robot.__init__"]


def fold(e, g, c):
    def rule(lid, it, names, loc):
        if not names:
            return None
        return FoldRule(e, lid, it, names, loc, chain_candidates(c, g) + counter(), defines_next(c))
    e.for_rule = rule


def value(e, aux, limits):
    g = G(e)
    c = Chain(e)
    th = c.theta(limited=limits == "both")
    kw = {}
    if limits in ("both", "ignored", "lower"):
        kw["joint_lower_limit"] = numbers(e, c.lo, c.N)
    if limits in ("both", "ignored", "upper"):
        kw["joint_upper_limit"] = numbers(e, c.up, c.N)
    r, sp = robot(e, g, c, kw, aux)
    fold(e, g, c)
    T1 = g.fwdkin(r, th, True) if limits == "ignored" else g.fwdkin(r, th)
    R, p = with_aux(sp, (c.R(c.N), c.p(c.N)))
    e.check("the pose is a Transform with 3x3 rotation and flat position", isinstance(T1, g.Transform) and shape_is(T1.R, (3, 3)) and shape_is(T1.p, (3,)))
    e.ensure_all("rotation is the product of the joint motions", eqs(T1.R, R))
    e.ensure_all("position is that of the product of the joint motions", eqs(T1.p, p))


def numbers(e, f, n):
    v = S.VList(n, f, "limit") if e.choose(2) else S.SymVec(n, f, None, "limit")
    v.frozen = True
    return v


def rejects(e):
    g = G(e)
    c = Chain(e)
    gi = intvar("gi")
    e.assume(gi >= 0)
    e.assume(gi < c.N)
    th = c.theta(limited=True, bad=gi)
    e.witnesses.append(gi)
    if e.choose(2):
        e.assume(c.th(gi) < c.lo(gi))
    else:
        e.assume(c.th(gi) > c.up(gi))
    r, sp = robot(e, g, c, {"joint_lower_limit": numbers(e, c.lo, c.N), "joint_upper_limit": numbers(e, c.up, c.N)}, False)
    fold(e, g, c)
    raises(e, "a joint out of range raises an error", lambda: g.fwdkin(r, th))


CONTRACTS = [("fwdkin within limits (aux %d)" % a, (lambda e, a=a: value(e, a, "both"))) for a in range(8)] + \
    [("fwdkin without position limits (%s)" % l, (lambda e, l=l: value(e, 7, l))) for l in ("none", "lower", "upper", "ignored")] + \
    [("fwdkin out of range", rejects)]
