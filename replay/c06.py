from base import *


def search(S):
    g = import_g()
    for n in S.loop(12000):
        q = S.unit(4)
        if S.flip():
            e = 10.0 ** float(S.rng.uniform(-17, -1))
            q = np.concatenate(([S.rng.choice([-1.0, 1.0])], S.unit() * e))
            q = q / np.linalg.norm(q)
        elif S.flip(0.2):
            q = np.concatenate(([S.rng.choice([-1.0, 1.0]) * 10.0 ** float(S.rng.uniform(-17, -1))], S.unit()))
            q = q / np.linalg.norm(q)
        R = qR(q)
        if S.flip(0.3):
            q = q * (1 + S.rng.uniform(-1, 1) * 1e-12)
        fr = freeze(q)
        i = {"q": q}
        k, t = S.call("q2rot", lambda: g.q2rot(q), i)
        S.close("axis is a unit vector", np.linalg.norm(k), 1.0, 1e-6, i)
        S.close("rot(k, theta) = q2R(q) to within 1e-5", rod(k, float(t)), R, 1.001e-5, i)
        S.ok("arguments are not modified", freeze(q) == fr, i)
