"""C06: q2rot"""
from .common import *

FUNCTIONS = ["q2rot"]


def q2rot_contract(e):
    g = G(e)
    q = unit("q", 4)
    fr = Snapshot(q)
    k, th = g.q2rot(q)
    e.check("axis has three components", len(k) == 3)
    k = asarr(k)
    th = Re.of(th)
    e.ensure_all("axis is a unit vector", [T.lit(dot(k, k) - 1, "=")])
    e.ensure_close("rot(k, theta) = q2R(q) to within 1e-5", rot(k, th), qrot(q), F(1, 100000))
    fr.ensure(e)


CONTRACTS = [("q2rot", q2rot_contract)]
