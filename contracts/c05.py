"""C05: R2q"""
from .common import *

FUNCTIONS = ["R2q"]


def r2q_contract(e):
    g = G(e)
    e.div_margin = F(1, 100)      # no branch divides by a vanishing number
    R, q0 = rotmat("q")
    fr = Snapshot(R)
    q = g.R2q(R)
    e.check("R2q returns four numbers", len(q) == 4)
    e.ensure_all("R2q(R) is a unit quaternion", [T.lit(dot(q, q) - 1, "=")])
    e.ensure_all("q2R(R2q(R)) = R", eqs(qrot(q), R))
    # the components of q are +- those of q0: q q0* is +-1 as a rotation is determined up to sign
    e.ensure_all("R2q(q2R(q)) = +-q", [T.lit(Re.of(q[i]) * Re.of(q[j]) - q0[i] * q0[j], "=") for i in range(4) for j in range(4)])
    fr.ensure(e)


CONTRACTS = [("R2q", r2q_contract)]
