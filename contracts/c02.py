"""C02: rot"""
from .common import *

FUNCTIONS = ["rot", "hat"]


def rot_contract(e):
    g = G(e)
    k = unit("k")
    th = var("theta")
    a = forms(e, k)
    fr = Snapshot(a)
    R = g.rot(a, th)
    e.check("rot returns a 3x3 matrix", shape_is(R, (3, 3)))
    e.ensure_all("rot(k, theta) is a proper rotation matrix", is_rotation(R))
    e.ensure_all("rot(k, theta) k = k", eqs(mm(R, k), k))
    # every vector perpendicular to k is k x u for some u
    u = vec("u")
    v = cross(k, u)
    c, s = T.cossin(th)
    e.ensure_all("rot(k, theta) v = cos(theta) v + sin(theta) k x v for v perpendicular to k", eqs(mm(R, v), c * v + s * cross(k, v)))
    e.ensure_all("rot(k, theta) is the Euler-Rodrigues matrix", eqs(R, rot(k, th)))
    fr.ensure(e)


def rot_group(e):
    g = G(e)
    k = unit("k")
    a, b = var("a"), var("b")
    e.ensure_all("rot(k,a) rot(k,b) = rot(k,a+b)", eqs(mm(g.rot(k, a), g.rot(k, b)), g.rot(k, a + b)))
    e.ensure_all("rot(k,-a) is the inverse of rot(k,a)", eqs(mm(g.rot(k, a), g.rot(k, -a)), eye()))
    e.ensure_all("rot(k,a) = rot(k,a+2 pi)", eqs(g.rot(k, a), g.rot(k, a + 2 * T.PI())))


CONTRACTS = [("rot", rot_contract), ("rot group laws", rot_group)]
