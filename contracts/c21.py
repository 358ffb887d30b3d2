"""C21: solutions of ur_invkin reach the desired pose"""
from .ik import *

FUNCTIONS = ["ur_invkin", "rot", "subproblem1", "subproblem2", "subproblem3", "subproblem4", "unapply_robot_aux_transforms", "normalize_joints"]
ASSUMPTIONS = ["callee contracts: subproblem1-4 (C15-C18), unapply_robot_aux_transforms is the inverse of apply_robot_aux_transforms (C14), fwdkin is the product of the joint motions (C12), normalize_joints (C19)",
               "robots: the axes are exactly those of one of the two alignments; P2 and P3 are not along the shoulder axis; P5 is along the last axis"]

COLS = [[0, 0, 1], [0, 1, 0], [0, 1, 0], [0, 1, 0], [0, 0, -1], [0, 1, 0]]


def axes(s):
    return arr([[Re.const(c[k] * (s if k == 1 else 1)) for c in COLS] for k in range(3)])


def geometry(e):
    s = [1, -1][e.choose(2)]
    P = [GV.base("P%d" % i) for i in range(7)]
    k = GV.base("ey")
    P[5] = k.scale(var("a5"))
    for v in (P[2], P[3]):
        e.assume(v.inner(v) - v.inner(k) * v.inner(k) > 0)
    return axes(s), P


def reach(e):
    H, P = geometry(e)
    last = None if e.choose(2) == 0 else vec("last", 6)
    res, _ = run(e, "ur_invkin", H, P, reaches(e, H, P, ("P6", "ey")), last)
    members(e, res, "every returned configuration is one of the solutions")


def rejects(e):
    """axes in neither alignment: an error, before anything is returned"""
    i = I(e)
    f = Facts(e, i)
    H = mat("H", 3, 6)
    for s in (1, -1):
        A = axes(s)
        d = [T.absv(A[r, c] - H[r, c]) > Re.const(T.Fraction(1, 1000)) for r in range(3) for c in range(6)]
        e.assume(T.bor([T.bo(x) for x in d]))
    P = [GV.base("P%d" % j) for j in range(7)]
    r = RobotG(H, GCols(P, frozen=True))
    pose = object()
    i.rox.unapply_robot_aux_transforms = Aux(e, r, pose)
    raises(e, "axes in neither alignment raise an error", lambda: i.ur_invkin(r, pose))


CONTRACTS = LEMMAS + [("ur_invkin", reach), ("ur_invkin rejects other robots", rejects)]
