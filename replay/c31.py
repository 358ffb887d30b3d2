from base import *
EX, EY, EZ = np.eye(3)


def opw(q, x):
    a1, a2, b, c1, c2, c3, c4 = x[:7]
    t = np.asarray(q) * np.asarray(x.sign_corrections, dtype=float) - np.asarray(x.offsets, dtype=float)
    c23, s23 = np.cos(t[1] + t[2]), np.sin(t[1] + t[2])
    cx = c2 * np.sin(t[1]) + c3 * s23 + a2 * c23 + a1
    cz = c2 * np.cos(t[1]) + c3 * c23 - a2 * s23
    R = rod(EZ, t[0]) @ rod(EY, t[1] + t[2]) @ rod(EZ, t[3]) @ rod(EY, t[4]) @ rod(EZ, t[5])
    p = np.array([cx * np.cos(t[0]) - b * np.sin(t[0]), cx * np.sin(t[0]) + b * np.cos(t[0]), cz + c1])
    return mat_h(R, p + c4 * R @ EZ)


def search(S):
    g = import_g()
    from general_robotics_toolbox import tesseract as T
    for k in S.loop(2500):
        bent = S.flip()
        B = rod(EY, np.pi / 2) if bent else np.eye(3)
        B = np.round(B)
        sg = np.where(S.rng.random(6) < S.pick([0, 0, 0.5]), -1.0, 1.0)
        H = np.array([sg[0] * EZ, sg[1] * EY, sg[2] * EY, sg[3] * B @ EZ, sg[4] * EY, sg[5] * B @ EZ]).T
        v = lambda: float(S.rng.normal()) * S.pick([1, 1, 0]) if S.flip() else float(np.round(S.rng.normal(), 2))
        p2 = np.array([v(), v(), v()]) * S.pick([1, np.array([0, 1, 1]), np.array([1, 1, 0])])
        P = np.array([[0, 0, v()], [v(), v(), v()], p2, B @ [v(), v(), v()], B @ [0, 0, v()], B @ [0, 0, v()], B @ [0, 0, v()]]).T
        Fl, fp = B.copy(), np.zeros(3)
        odd = S.flip()
        if odd:
            w = int(S.rng.integers(5))
            if w == 0:
                P = P + (S.rng.random((3, 7)) < 0.1) * S.rng.normal(size=(3, 7))
            elif w == 1:
                j = int(S.rng.integers(6))
                H[:, j] = S.pick([-H[:, j], EX, EY, EZ])
            elif w == 2:
                Fl = Fl @ rod(S.pick([EX, EY, EZ]), S.pick([np.pi / 2, np.pi, 0.3]))
            elif w == 3:
                fp = S.rng.normal(size=3) * (S.rng.random(3) < 0.5)
            else:
                j = S.pick([3, 5])
                H[:, 3] = H[:, 3] + S.pick([1.5e-8, 3e-8, 1e-3]) * EY
                H[:, 5] = H[:, 5] + S.pick([0.8e-8, 0, 1e-3]) * EY
                H /= np.linalg.norm(H, axis=0)
        r = g.Robot(H, P, [0] * 6, T_flange=g.Transform(Fl, fp))
        i = dict(robot=r)
        try:
            x = T.robot_to_opw_inv_kin_parameters(r)
        except (AssertionError, ValueError) as ex:
            S.ok("robots of the OPW form are accepted", odd, i, repr(ex))
            continue
        for _ in range(2):
            q = S.rng.uniform(-3, 3, 6)
            sc = 1 + np.sum(np.abs(P))
            S.close("OPW kinematics with the returned parameters", opw(q, x), fk(r, q), 1e-3 * sc if odd else 1e-5 * sc, dict(i, theta=q, parameters=tuple(x)))
