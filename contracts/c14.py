"""C14: aux transforms"""
from .common import *

FUNCTIONS = ["apply_robot_aux_transforms", "unapply_robot_aux_transforms", "Transform.__mul__", "Transform.inv", "Transform.__init__"]


class Bare:
    """a robot as seen by the aux transform functions"""


def aux_robot(e, g, extra=None):
    """every combination of present and absent tool, flange and base; returns robot and the 4x4 spec transforms before and after"""
    r = Bare()
    c = e.choose(8)
    r.T_flange = r.R_tool = r.p_tool = r.T_base = None
    A = Pose(eye(), arr([0, 0, 0]))
    B = Pose(eye(), arr([0, 0, 0]))
    if c & 1:
        R, _ = rotmat("fq")
        r.T_flange = g.Transform(R, vec("fp"))
        A = A * Pose(R, vec("fp"))
    if c & 2:
        R, _ = rotmat("tq")
        r.R_tool, r.p_tool = R, vec("tp")
        A = A * Pose(R, vec("tp"))
    if c & 4:
        R, _ = rotmat("bq")
        r.T_base = g.Transform(R, vec("bp"))
        B = Pose(R, vec("bp"))
    return r, A, B


class Pose:
    """spec-level rigid motion"""

    def __init__(self, R, p):
        self.R, self.p = R, p

    def __mul__(self, o):
        return Pose(mm(self.R, o.R), self.p + mm(self.R, o.p))

    def inv(self):
        return Pose(self.R.T.copy(), -mm(self.R.T.copy(), self.p))


def pose_eqs(a, b):
    return eqs(a.R, b.R) + eqs(a.p, b.p)


def snap(r, T_):
    xs = [T_.R, T_.p]
    for t in (r.T_flange, r.T_base):
        if t is not None:
            xs += [t.R, t.p]
    if r.R_tool is not None:
        xs += [r.R_tool, r.p_tool]
    return Snapshot(*xs)


def pose(e, g, name="x"):
    R, _ = rotmat(name + "q")
    p = vec(name + "p")
    return g.Transform(R, p), Pose(R, p)


def apply_contract(e):
    g = G(e)
    r, A, B = aux_robot(e, g)
    X, x = pose(e, g)
    fr = snap(r, X)
    Y = g.apply_robot_aux_transforms(r, X)
    e.ensure_all("apply = T_base T T_flange Tool", pose_eqs(Y, B * x * A))
    fr.ensure(e)


def unapply_contract(e):
    g = G(e)
    r, A, B = aux_robot(e, g)
    X, x = pose(e, g)
    fr = snap(r, X)
    Y = g.unapply_robot_aux_transforms(r, X)
    e.ensure_all("unapply = T_base^-1 T (T_flange Tool)^-1", pose_eqs(Y, B.inv() * x * A.inv()))
    fr.ensure(e)


def lemma(e):
    """the two contracts are inverse to each other"""
    a, b, x = [Pose(rotmat(n + "q")[0], vec(n + "p")) for n in "abx"]
    e.ensure_all("lemma: unapply after apply is the identity", pose_eqs(b.inv() * (b * x), x) + pose_eqs((x * a) * a.inv(), x))
    e.ensure_all("lemma: apply after unapply is the identity", pose_eqs(b * (b.inv() * x), x) + pose_eqs((x * a.inv()) * a, x))


CONTRACTS = [("apply_robot_aux_transforms", apply_contract), ("unapply_robot_aux_transforms", unapply_contract), ("inverse", lemma)]
