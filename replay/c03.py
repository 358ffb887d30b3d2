from base import *


def near(S):
    c = S.rng.integers(6)
    e = 10.0 ** float(S.rng.uniform(-16, -1)) * S.rng.choice([-1, 1])
    return [0.0, math.pi, e, math.pi + e, S.angle(), float(S.rng.uniform(-math.pi, math.pi))][c]


def search(S):
    g = import_g()
    for n in S.loop(12000):
        k, t = S.unit(), near(S)
        R = rod(k, t)
        if S.flip(0.3):
            R = R + S.rng.uniform(-1, 1, size=(3, 3)) * 10.0 ** float(S.rng.uniform(-16, -13))
        if S.flip(0.1):
            R = np.round(R)
            if abs(np.linalg.det(R) - 1) > 1e-9 or np.max(np.abs(R @ R.T - np.eye(3))) > 1e-9:
                continue
        fr = freeze(R)
        i = {"R": R, "k": k, "theta": t}
        kk, th = S.call("R2rot", lambda: g.R2rot(R), i)
        S.close("axis is a unit vector", np.linalg.norm(kk), 1.0, 2e-6, i)
        S.ok("theta is in [0, pi]", np.isfinite(th) and -1e-12 <= th <= math.pi + 1e-12, i, th)
        S.close("rot(k, theta) = R to within 1e-5", rod(kk, th), R, 1.001e-5, i)
        S.ok("arguments are not modified", freeze(R) == fr, i)
