"""C03: R2rot"""
from .common import *

FUNCTIONS = ["R2rot", "invhat"]
TOL = F(1, 100000)


def r2rot_contract(e):
    g = G(e)
    R, q = rotmat("q")
    fr = Snapshot(R)
    k, th = g.R2rot(R)
    fr.ensure(e)
    e.check("axis has three components", len(k) == 3)
    k = asarr(k)
    th = Re.of(th)
    e.ensure_all("axis is a unit vector", [T.lit(dot(k, k) - 1, "=")])
    e.ensure_all("theta is in [0, pi]", [th >= 0, th <= T.PI()])
    B = rot(k, th)
    e.ensure_close("rot(k, theta) = R to within 1e-5", B, R, TOL)


CONTRACTS = [("R2rot", r2rot_contract)]
