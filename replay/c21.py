from ikrobots import *


def search(S):
    g = import_g()
    for k in S.loop(900):
        r = ur(S, g, S.flip(0.3))
        T, q = pose(S, g, r)
        reach(S, g, "ur_invkin", r, T, last(S, q), q)
        if k % 5 == 0:
            H = np.array(r.H)
            j = int(S.rng.integers(6))
            c = S.rng.integers(3)
            if c == 0:
                H[:, j] = -H[:, j]
            elif c == 1:
                H[:, j] = S.rotation() @ H[:, j]
            else:
                H = S.rotation() @ H
            A = np.array([EZ, EY, EY, EY, -EZ, EY]).T
            B = np.array([EZ, -EY, -EY, -EY, -EZ, -EY]).T
            if min(np.max(np.abs(H - A)), np.max(np.abs(H - B))) > 1e-2:
                r2 = g.Robot(H, r.P, [0] * 6)
                S.raises("a robot in neither alignment is rejected", lambda: g.ur_invkin(r2, T), dict(robot=r2, pose=T))
