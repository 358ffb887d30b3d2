"""C07: quaternion algebra"""
from .common import *

FUNCTIONS = ["quatcomplement", "quatproduct", "quatjacobian", "hat"]


def comp(e):
    g = G(e)
    q = vec("q", 4)
    a = forms(e, q, ("list", "array"))
    fr = Snapshot(a)
    c = g.quatcomplement(a)
    e.check("quatcomplement returns four numbers", len(c) == 4)
    e.ensure_all("quatcomplement(q) is the conjugate", eqs(c, [q[0], -q[1], -q[2], -q[3]]))
    n = dot(q, q)
    e.ensure_all("q q* = |q|^2", eqs(mm(g.quatproduct(q), asarr(c)), [n, 0, 0, 0]))
    fr.ensure(e)


def prod(e):
    g = G(e)
    p, q, r = vec("p", 4), vec("q", 4), vec("r", 4)
    fr = Snapshot(p, q)
    Q = g.quatproduct(q)
    e.check("quatproduct returns a 4x4 matrix", shape_is(Q, (4, 4)))
    e.ensure_all("quatproduct(q) p is the Hamilton product q p", eqs(mm(Q, p), qmul(q, p)))
    qp = mm(Q, p)
    e.ensure_all("the product is associative", eqs(mm(g.quatproduct(qp), r), mm(Q, mm(g.quatproduct(p), r))))
    e.ensure("|q p|^2 = |q|^2 |p|^2", T.lit(dot(qp, qp) - dot(q, q) * dot(p, p), "="))
    fr.ensure(e)


def jac(e):
    g = G(e)
    q, w = unit("q", 4), vec("w")
    fr = Snapshot(q)
    J = g.quatjacobian(q)
    e.check("quatjacobian returns a 4x3 matrix", shape_is(J, (4, 3)))
    qd = mm(J, w)
    e.ensure("quaternion rate is orthogonal to q", T.lit(dot(q, qd), "="))
    # qdot = 1/2 [0,w] q
    e.ensure_all("quatjacobian(q) w = 1/2 [0,w] q", eqs(qd, qmul([0] + w.tolist(), q) / 2))
    # derivative of the rotation matrix in the direction qd (bilinear form of qrot)
    D = (qrot(q + qd) - qrot(q - qd)) / 2
    e.ensure_all("rate of q2R(q) along quatjacobian(q) w is hat(w) q2R(q)", eqs(D, mm(hat(w), qrot(q))))
    fr.ensure(e)


CONTRACTS = [("quatcomplement", comp), ("quatproduct", prod), ("quatjacobian", jac)]
