"""C32: Universal Robots DH parameters

The parameters are read off a robot that is accepted when it is close to the ideal form.  Three contracts: what is accepted is
within the tolerances of an ideal robot with exactly the returned parameters (for all real H, P, T_flange, T_base); ideal
robots are accepted with exactly their parameters; fwdkin of an ideal robot is the DH product, for all parameters, placements of
the lateral offsets and joint vectors."""
from .common import *

FUNCTIONS = ["robot_to_ur_inv_kin_parameters", "fwdkin", "Robot.__init__"]
ASSUMPTIONS = ["fwdkin is a polynomial of H, P, base and flange for given sines and cosines, hence entries within 2e-5 (rotations) and 1e-6 (offsets) of an ideal robot give a pose within the same order of the ideal pose; "
               "the constant of this continuity argument is not computed", "tesseract_robotics is only imported (contracts/tess.py)"]
from . import tess
EX, EY, EZ = arr([1, 0, 0]), arr([0, 1, 0]), arr([0, 0, 1])
I3 = eye()
ZPI = arr([[-1, 0, 0], [0, -1, 0], [0, 0, 1]])
NAMES = ("d1", "a2", "a3", "d4", "d5", "d6")


class Rob:
    """a robot as Robot.__init__ leaves it (C11)"""


def M(e):
    L = load(e, tess.modules())
    return L.module("tesseract"), L.module("general_robotics_toolbox")


def cols(*v):
    return arr([[x[i] for x in v] for i in range(3)])


def ideal_H(minus):
    s = -1 if minus else 1
    return cols(EZ, s * EY, s * EY, s * EY, -EZ, s * EY)


def ideal_frames(minus):
    F = cols(EX, EZ, -EY)
    return (F, ZPI) if minus else (mm(ZPI, F), I3)


def near(e, label, a, b, tol):
    e.ensure_all(label, [c for x, y in zip(asarr(a).ravel().tolist(), asarr(b).ravel().tolist()) for c in (Re.of(x) - y <= tol, Re.of(y) - x <= tol)])


def params(e, r):
    e.check("d1, a2, a3, d4, d5, d6 in this order", tuple(r._fields) == NAMES, getattr(r, "_fields", None))
    return [Re.of(x) for x in r]


def accepted(e):
    m, g = M(e)
    r = Rob()
    r.H, r.P = mat("H", 3, 6), mat("P", 3, 7)
    F, B = mat("F", 3, 3), mat("B", 3, 3)
    fp, bp = vec("fp"), vec("bp")
    r.T_flange, r.T_base = g.Transform(F.copy(), fp.copy()), g.Transform(B.copy(), bp.copy())
    H, P = r.H.copy(), r.P.copy()
    missing = e.choose(3)
    if missing == 1:
        r.T_flange = None
    elif missing == 2:
        r.T_base = None
    try:
        x = m.robot_to_ur_inv_kin_parameters(r)
    except (AssertionError, ValueError):
        e.check("rejected", True)
        return
    e.check("a robot without flange or base is rejected", missing == 0)
    d1, a2, a3, d4, d5, d6 = params(e, x)
    minus = e.decide(H[1, 1] < 0)
    near(e, "axes of an accepted robot", H, ideal_H(minus), F_(2, 5))
    IF, IB = ideal_frames(minus)
    near(e, "flange of an accepted robot: orientation", F, IF, F_(2, 5))
    near(e, "base of an accepted robot: orientation", B, IB, F_(2, 5))
    near(e, "flange and base of an accepted robot: origin", [*fp.tolist(), *bp.tolist()], [0] * 6, F_(1, 6))
    if not minus:
        P = mm(ZPI, P)
    t = F_(1, 6)
    near(e, "P0", P[:, 0], [0, 0, d1], t)
    near(e, "x and z offsets", [P[0, 1], P[2, 1], P[0, 2], P[2, 2], P[0, 3], P[2, 3], P[0, 4], P[2, 4], P[0, 5], P[2, 5], P[0, 6], P[2, 6]], [0, 0, a2, 0, a3, 0, 0, -d5, 0, 0, 0, 0], t)
    near(e, "lateral offsets before the fifth axis", [P[1, 1] + P[1, 2] + P[1, 3] + P[1, 4]], [-d4], t)
    near(e, "lateral offsets behind the fifth axis", [P[1, 5] + P[1, 6]], [-d6], t)
    e.ensure_all("frame: the robot is not modified", eqs(r.H, H) + eqs(r.T_flange.R, F) + eqs(r.T_base.R, B))


def F_(a, b):
    return F(a, 10**b)


def ideal(e, m, g):
    """an ideal robot with arbitrary parameters, made by Robot()"""
    minus = bool(e.choose(2))
    p = [var(n) for n in NAMES]
    d1, a2, a3, d4, d5, d6 = p
    y = [var("y%d" % i) for i in range(4)]
    Z = Re.const(0)
    P = cols([Z, Z, d1], [Z, y[0], Z], [a2, y[1], Z], [a3, y[2], Z], [Z, -d4 - y[0] - y[1] - y[2], -d5], [Z, y[3], Z], [Z, -d6 - y[3], Z])
    if not minus:
        P = mm(ZPI, P)
    IF, IB = ideal_frames(minus)
    o = lambda: arr([0, 0, 0])
    return p, minus, g.Robot(ideal_H(minus), P, arr([0] * 6), T_flange=g.Transform(IF.copy(), o()), T_base=g.Transform(IB.copy(), o()))


def exact(e):
    m, g = M(e)
    p, minus, r = ideal(e, m, g)
    x = params(e, m.robot_to_ur_inv_kin_parameters(r))
    for n, a, b in zip(NAMES, x, p):
        e.ensure("ideal robots are accepted with their " + n, T.lit(a - b, "="))


def dh(q, d1, a2, a3, d4, d5, d6):
    """product of Rz(q_i) Tz(d_i) Tx(a_i) Rx(alpha_i)"""
    z = Re.const(0)
    R, p = I3, arr([0, 0, 0])
    for th, d, a, al in zip(q, (d1, z, z, d4, d5, d6), (z, a2, a3, z, z, z), (1, 0, 0, 1, -1, 0)):
        Rz = rot(EZ, th)
        X = arr([[1, 0, 0], [0, 0, -al], [0, al, 0]]) if al else I3
        p = p + mm(R, mm(Rz, arr([a, 0, 0])) + d * EZ)
        R = mm(R, Rz, X)
    return R, p


def kinematics(e):
    m, g = M(e)
    p, minus, r = ideal(e, m, g)
    q = vec("q", 6)
    x = g.fwdkin(r, q.copy())
    R, v = dh(q, *p)
    e.ensure_all("fwdkin is the DH orientation, turned by half a turn", eqs(x.R, mm(ZPI, R)))
    e.ensure_all("fwdkin is the DH position, turned by half a turn", eqs(x.p, mm(ZPI, v)))


CONTRACTS = [("robot_to_ur_inv_kin_parameters accepts", accepted), ("robot_to_ur_inv_kin_parameters of ideal robots", exact), ("lemma: DH kinematics", kinematics)]
