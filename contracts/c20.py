"""C20: solutions of robot6_sphericalwrist_invkin reach the desired pose"""
from .ik import *

FUNCTIONS = ["robot6_sphericalwrist_invkin", "rot", "subproblem1", "subproblem2", "subproblem3", "subproblem4", "unapply_robot_aux_transforms", "normalize_joints"]
ASSUMPTIONS = ["callee contracts: subproblem1-4 (C15-C18), unapply_robot_aux_transforms is the inverse of apply_robot_aux_transforms (C14), fwdkin is the product of the joint motions (C12), normalize_joints (C19)",
               "robots: P2 and the elbow offset P3 (+ P4) are not along the shoulder axis, consecutive wrist axes 5 and 6 are not parallel; their P4 and P5 are exactly along wrist axes 4 and 6"]


def geometry(e):
    s0, s = Re.const([1, -1][e.choose(2)]), Re.const([1, -1][e.choose(2)])
    h3, h4, h5 = [GV.base(n, unit=True) for n in ("h4", "h5", "h6")]
    H = [GV.base("ez").scale(s0), GV.base("ey").scale(s), GV.base("ey").scale(s), h3, h4, h5]
    P = [GV.base("P%d" % i) for i in range(7)]
    a, b = var("a4"), var("a5")
    P[4] = h3.scale(a)
    P[5] = h5.scale(b)
    geo.state()["nonpar"].add(("h5", "h6"))
    k = GV.base("ey")
    for v in (P[2], P[3] + P[4]):
        e.assume(v.inner(v) - v.inner(k) * v.inner(k) > 0)
    return H, P


def reach(e):
    H, P = geometry(e)
    last = None if e.choose(2) == 0 else vec("last", 6)
    res, _ = run(e, "robot6_sphericalwrist_invkin", H, P, reaches(e, H, P, ("P6", "h6")), last)
    members(e, res, "every returned configuration is one of the solutions")


CONTRACTS = LEMMAS + [("robot6_sphericalwrist_invkin", reach)]
