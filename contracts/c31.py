"""C31: OPW parameters

The same scheme as C32: what is accepted is within the tolerances of an ideal robot with exactly the returned parameters; ideal
robots are accepted with their parameters; fwdkin of an ideal robot is the OPW forward kinematics."""
from .common import *
from . import tess
from .c32 import Rob, M, EX, EY, EZ, I3, cols, near, F_

FUNCTIONS = ["robot_to_opw_inv_kin_parameters", "fwdkin", "Robot.__init__"]
ASSUMPTIONS = ["fwdkin is a polynomial of H, P and flange for given sines and cosines, hence entries within the tolerances of the acceptance test of an ideal robot give a pose within the same order of the ideal pose; "
               "the constant of this continuity argument is not computed", "angles rounded to 8 or more digits are treated as exact", "tesseract_robotics is only imported (contracts/tess.py)"]
NAMES = ("a1", "a2", "b", "c1", "c2", "c3", "c4", "offsets", "sign_corrections")


def rounding(e):
    """lengths within the rounding error, angles exact"""
    e.round_mode = lambda x, n: "exact" if n >= 8 else None


def accepted(e, part):
    """part: the signs of three entries of H, which the verifier treats separately to keep the parts small"""
    m, g = M(e)
    rounding(e)
    r = Rob()
    r.H, r.P = mat("H", 3, 6), mat("P", 3, 7)
    for i, (k, j) in enumerate(((2, 0), (1, 1), (1, 2))):
        e.assume(r.H[k, j] > 0 if part >> i & 1 else r.H[k, j] <= 0)
    n = [6, 5, 7][e.choose(3)] if part == 7 else 6
    r.joint_type = NP.zeros((n,))
    Fl, fp = mat("F", 3, 3), vec("fp")
    r.T_flange = g.Transform(Fl.copy(), fp.copy())
    if part == 7 and n == 6 and e.choose(2):
        r.T_flange = n = None
    H, P = r.H.copy(), r.P.copy()
    try:
        x = m.robot_to_opw_inv_kin_parameters(r)
    except (AssertionError, ValueError):
        e.check("rejected", True)
        return
    e.check("a robot without flange or with other than six joints is rejected", n == 6)
    e.check("parameter names", tuple(x._fields) == NAMES, getattr(x, "_fields", None))
    a1, a2, b, c1, c2, c3, c4 = [Re.of(v) for v in x[:7]]
    off, sg = asarr(x.offsets), asarr(x.sign_corrections)
    e.check("six offsets and signs", off.shape == (6,) and sg.shape == (6,))
    e.ensure_all("offsets are those of joints 2 and 3", eqs([off[i] for i in (0, 3, 4, 5)], [0] * 4))
    e.check("signs are +1 or -1", all(v.isconst and abs(v.cval()) == 1 for v in sg.tolist()), [str(v) for v in sg.tolist()])
    A, B = rot(EY, off[1]), rot(EY, off[1] + off[2])
    U = cols(P[:, 0], P[:, 1], mm(A, P[:, 2]), *[mm(B, P[:, j]) for j in (3, 4, 5, 6)])
    V = cols(H[:, 0], H[:, 1], H[:, 2], *[mm(B, H[:, j]) for j in (3, 4, 5)])
    near(e, "axes of an accepted robot", V, cols(*[s * v for s, v in zip(sg.tolist(), (EZ, EY, EY, EZ, EY, EZ))]), F_(2, 5))
    near(e, "flange of an accepted robot: orientation", mm(B, Fl), I3, F_(3, 5))
    near(e, "flange of an accepted robot: origin", fp, [0] * 3, F_(1, 6))
    t = F_(2, 6)
    near(e, "lateral and forward offsets that vanish", [U[0, 0], U[1, 0], U[0, 2], *U[0, 4:].tolist(), *U[1, 4:].tolist()], [0] * 9, t)
    for nm, v, w in (("a1", a1, U[0, 1]), ("a2", a2, U[0, 3]), ("b", b, U[1, 1] + U[1, 2] + U[1, 3]), ("c1", c1, U[2, 0] + U[2, 1]), ("c2", c2, U[2, 2]), ("c3", c3, U[2, 3] + U[2, 4]), ("c4", c4, U[2, 5] + U[2, 6])):
        near(e, "parameter " + nm, [w], [v], t)
    e.ensure_all("frame: the robot is not modified", eqs(r.H, H) + eqs(r.P, P) + eqs(r.T_flange.R, Fl))




def ideal(e, o1, o2, p2):
    """axes, offsets and flange of the OPW form: offset angles o1, o2 of joints 2 and 3, p2 the offset between these joints"""
    sg = [1 - 2 * e.choose(2) for _ in range(6)]
    par = dict((n, var(n)) for n in NAMES[:7])
    z0, z3, z5, y1 = var("z0"), var("z3"), var("z5"), var("y1")
    o = Re.const(0)
    B = rot(EY, o1 + o2).T
    P = cols([o, o, z0], [par["a1"], y1, par["c1"] - z0], p2, mm(B, arr([par["a2"], par["b"] - y1 - p2[1], z3])), mm(B, arr([o, o, par["c3"] - z3])), mm(B, arr([o, o, z5])), mm(B, arr([o, o, par["c4"] - z5])))
    H = cols(*[s * v for s, v in zip(sg, (EZ, EY, EY, mm(B, EZ), EY, mm(B, EZ)))])
    return sg, par, H, P, B


def robot(g, H, P, B):
    return g.Robot(H, P, arr([0] * 6), T_flange=g.Transform(B.copy(), arr([0, 0, 0])))


def exact(e, bent):
    m, g = M(e)
    rounding(e)
    p2 = vec("p2")
    sg, par, H, P, B = ideal(e, Re.const(0), T.PI() * F(-1, 2) if bent else Re.const(0), p2)
    x = m.robot_to_opw_inv_kin_parameters(robot(g, H, P, B))
    for n in ("a1", "a2", "b", "c1", "c3", "c4"):
        near(e, "ideal robots are accepted with their " + n, [Re.of(getattr(x, n))], [par[n]], F_(2, 6))
    e.check("ideal robots are accepted with their signs", [v.cval() for v in asarr(x.sign_corrections).tolist()] == sg)
    off = asarr(x.offsets)
    u = mm(rot(EY, off[1]), p2)
    near(e, "c2 and the offset of joint 2 describe the link", [u[0], u[2]], [0, Re.of(x.c2)], F_(2, 6))
    e.ensure_all("offsets are those of joints 2 and 3", eqs([off[i] for i in (0, 3, 4, 5)], [0] * 4))
    e.ensure_all("the offsets turn the wrist upright", eqs(rot(EY, off[1] + off[2]), B.T))


def opw(q, a1, a2, b, c1, c2, c3, c4):
    """the forward kinematics of the OPW solver"""
    (C1, S1), (C2, S2), (C23, S23) = [T.cossin(v) for v in (q[0], q[1], q[1] + q[2])]
    x = c2 * S2 + c3 * S23 + a2 * C23 + a1
    z = c2 * C2 + c3 * C23 - a2 * S23
    R = mm(rot(EZ, q[0]), rot(EY, q[1] + q[2]), rot(EZ, q[3]), rot(EY, q[4]), rot(EZ, q[5]))
    return R, arr([x * C1 - b * S1, x * S1 + b * C1, z + c1]) + c4 * mm(R, EZ)


def kinematics(e):
    m, g = M(e)
    o1, o2 = var("o1"), var("o2")
    y2 = var("y2")
    p2 = mm(rot(EY, o1).T, arr([0, y2, var("c2")]))
    sg, par, H, P, B = ideal(e, o1, o2, p2)
    q = vec("q", 6)
    x = g.fwdkin(robot(g, H, P, B), q.copy())
    R, v = opw([s * a - o for s, a, o in zip(sg, q.tolist(), (0, o1, o2, 0, 0, 0))], *[par[n] for n in NAMES[:7]])
    e.ensure_all("fwdkin is the OPW orientation", eqs(x.R, R))
    e.ensure_all("fwdkin is the OPW position", eqs(x.p, v))


CONTRACTS = [("robot_to_opw_inv_kin_parameters accepts, part %d" % i, lambda e, i=i: accepted(e, i)) for i in range(8)] + \
    [("robot_to_opw_inv_kin_parameters of ideal robots, wrist along " + n, lambda e, b=b: exact(e, b)) for b, n in enumerate("zx")] + [("lemma: OPW kinematics", kinematics)]
