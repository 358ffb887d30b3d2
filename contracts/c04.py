"""C04: q2R, rot2q"""
from .common import *

FUNCTIONS = ["q2R", "rot2q", "hat", "rot"]


def q2r_contract(e):
    g = G(e)
    q = unit("q", 4)
    a = forms(e, q, ("list", "array"))
    fr = Snapshot(a)
    R = g.q2R(a)
    e.check("q2R returns a 3x3 matrix", shape_is(R, (3, 3)))
    e.ensure_all("q2R(q) is a proper rotation matrix", is_rotation(R))
    e.ensure_all("q2R(q) is the rotation of the quaternion", eqs(R, qrot(q)))
    e.ensure_all("q2R(q) = q2R(-q)", eqs(R, g.q2R(-q)))
    # v -> q v q*
    v = vec("v")
    qc = arr([q[0], -q[1], -q[2], -q[3]])
    w = qmul(qmul(q, [0] + v.tolist()), qc)
    e.ensure_all("q2R(q) v = q v q*", eqs(mm(R, v), w[1:4]))
    fr.ensure(e)


def q2r_product(e):
    g = G(e)
    p, q = unit("p", 4), unit("q", 4)
    e.ensure_all("q2R(p q) = q2R(p) q2R(q)", eqs(g.q2R(qmul(p, q)), mm(g.q2R(p), g.q2R(q))))


def rot2q_contract(e):
    g = G(e)
    k, th = unit("k"), var("theta")
    a = forms(e, k, ("array", "column"))
    fr = Snapshot(a)
    q = g.rot2q(a, th)
    e.check("rot2q returns a 4-vector", shape_is(q, (4,)))
    c, s = T.cossin(th / 2)
    e.ensure_all("rot2q(k, theta) = [cos(theta/2), sin(theta/2) k]", eqs(q, [c] + (k * s).tolist()))
    e.ensure_all("rot2q(k, theta) is a unit quaternion", [T.lit(dot(q, q) - 1, "=")])
    e.ensure_all("q2R(rot2q(k, theta)) = rot(k, theta)", eqs(g.q2R(q), rot(k, th)))
    e.ensure_all("q2R(rot2q(k, theta)) = code's rot(k, theta)", eqs(g.q2R(q), g.rot(k, th)))
    fr.ensure(e)


CONTRACTS = [("q2R", q2r_contract), ("q2R product", q2r_product), ("rot2q", rot2q_contract)]
