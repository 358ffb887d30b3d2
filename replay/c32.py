from base import *
EX, EY, EZ = np.eye(3)
ZPI = np.diag([-1.0, -1.0, 1.0])
AL = [np.pi / 2, 0, 0, np.pi / 2, -np.pi / 2, 0]


def dh(q, p):
    d1, a2, a3, d4, d5, d6 = p
    M = np.eye(4)
    for t, d, a, al in zip(q, (d1, 0, 0, d4, d5, d6), (0, a2, a3, 0, 0, 0), AL):
        M = M @ mat_h(rod(EZ, t), np.array([0, 0, d])) @ mat_h(rod(EX, al), np.array([a, 0, 0]))
    return M


def search(S):
    g = import_g()
    from general_robotics_toolbox import tesseract as T
    for k in S.loop(1500):
        minus = S.flip()
        s = -1 if minus else 1
        par = S.rng.normal(size=6) * S.pick([1, 0.3, 0.0]) if S.flip() else S.rng.normal(size=6)
        d1, a2, a3, d4, d5, d6 = par
        y = S.rng.normal(size=4) if S.flip() else np.zeros(4)
        P = np.array([[0, 0, d1], [0, y[0], 0], [a2, y[1], 0], [a3, y[2], 0], [0, -d4 - y[0] - y[1] - y[2], -d5], [0, y[3], 0], [0, -d6 - y[3], 0]]).T
        H = np.array([EZ, s * EY, s * EY, s * EY, -EZ, s * EY]).T
        Fl, B = np.array([EX, EZ, -EY]).T, ZPI.copy()
        if not minus:
            P, Fl, B = ZPI @ P, ZPI @ Fl, np.eye(3)
        fp, bp = np.zeros(3), np.zeros(3)
        odd = S.flip()
        if odd:
            w = int(S.rng.integers(7))
            if w == 0:
                P = P + (S.rng.random((3, 7)) < 0.1) * S.rng.normal(size=(3, 7))
            elif w == 1:
                j = int(S.rng.integers(6))
                H[:, j] = S.pick([-H[:, j], EX, EY, EZ])
            elif w == 2:
                Fl = Fl @ rod(S.pick([EX, EY, EZ]), S.pick([np.pi / 2, np.pi, 0.3]))
            elif w == 3:
                B = B @ rod(S.pick([EX, EY, EZ]), S.pick([np.pi / 2, np.pi, 0.3]))
            elif w == 4:
                fp = S.rng.normal(size=3) * (S.rng.random(3) < 0.5)
            elif w == 5:
                bp = S.rng.normal(size=3) * (S.rng.random(3) < 0.5)
            else:
                j = int(S.rng.integers(6))
                H[:, j] = S.rotation() @ H[:, j]
        r = g.Robot(H, P, [0] * 6, T_flange=g.Transform(Fl, fp), T_base=g.Transform(B, bp))
        i = dict(robot=r)
        try:
            x = T.robot_to_ur_inv_kin_parameters(r)
        except (AssertionError, ValueError) as ex:
            S.ok("robots of the UR form are accepted", odd, i, repr(ex))
            continue
        for _ in range(2):
            q = S.rng.uniform(-3, 3, 6)
            sc = 1 + np.sum(np.abs(P))
            S.close("DH kinematics with the returned parameters", mat_h(ZPI, np.zeros(3)) @ dh(q, x), fk(r, q), 1e-3 * sc if odd else 1e-8 * sc, dict(i, theta=q, parameters=tuple(x)))
