from base import *


def search(S):
    g = import_g()
    for n in S.loop(12000):
        q = S.unit(4)
        c = S.rng.integers(5)
        if c == 0:      # on the boundaries between the branches
            q = S.rng.choice([-1, 0, 1], size=4).astype(float)
            if not q.any():
                continue
            q = q / np.linalg.norm(q)
            R = np.round(qR(q), 12) if S.flip() else qR(q)
        elif c == 1:
            q = S.rng.choice([-1, 0, 1], size=4) + S.rng.normal(size=4) * 10.0 ** float(S.rng.uniform(-14, -1))
            q = q / np.linalg.norm(q)
            R = qR(q)
        elif c == 2:
            R = rod(S.unit(), S.pick([math.pi, math.pi + 1e-9, 2 * math.pi / 3, 0.0, -2 * math.pi / 3, math.pi / 2]))
        else:
            R = qR(q)
        fr = freeze(R)
        i = {"R": R}
        r = S.call("R2q", lambda: g.R2q(R), i)
        S.close("R2q returns a unit quaternion", np.linalg.norm(r), 1.0, 1e-7, i)
        S.close("q2R(R2q(R)) = R", qR(r), R, 1e-7, i)
        S.ok("arguments are not modified", freeze(R) == fr, i)
        i = {"q": q}
        r = S.call("R2q", lambda: g.R2q(g.q2R(q)), i)
        S.ok("R2q(q2R(q)) is q or -q", min(np.max(np.abs(r - q)), np.max(np.abs(r + q))) < 1e-6, i, r, q)
